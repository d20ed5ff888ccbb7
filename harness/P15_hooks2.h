#undef _lf_trigger_reaction
#ifdef MODAL_REACTORS
#undef _lf_mode_is_active
#endif
/* threads are not started by the functions under contract */
#ifndef LF_SINGLE_THREADED
static int vf_no_thread(void* t, void* a) { return 0; }
#define lf_thread_create(t, f, a) vf_no_thread(t, a)
#endif
