#define DUNE_ENABLE_PYTHONMODULE_PRECOMPILE 1
