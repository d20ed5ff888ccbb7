/* what happens at a tag once it is reached is P12's */
#ifndef P14_EVENTS
void vf_start_step(environment_t* e);
void vf_shutdown(environment_t* e);
void vf_pop_events(environment_t* e);
#define _lf_start_time_step vf_start_step
#define _lf_trigger_shutdown_reactions vf_shutdown
#define _lf_pop_events vf_pop_events
#ifdef LF_SINGLE_THREADED
size_t vf_rsize(pqueue_t* q);
#define pqueue_size vf_rsize
#endif
#endif
