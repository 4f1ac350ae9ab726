#ifdef VP_PARALLEL
#define HAS_EXECUTION
#endif
