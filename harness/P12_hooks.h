/* functions that the functions under contract call are known by their contracts */
pqueue_tag_element_t* vf_peek(pqueue_tag_t* q);
pqueue_tag_element_t* vf_pop(pqueue_tag_t* q);
int vf_insert(pqueue_tag_t* q, pqueue_tag_element_t* e);
token_freed vf_done_using(lf_token_t* t);
void vf_replace_template(token_template_t* t, lf_token_t* k);
void vf_trigger_reaction(environment_t* e, reaction_t* r, int w);
trigger_handle_t vf_schedule_trigger(environment_t* e, trigger_t* t, interval_t d, lf_token_t* k);
#define pqueue_tag_peek vf_peek
#define pqueue_tag_pop vf_pop
#define pqueue_tag_insert vf_insert
#define _lf_done_using vf_done_using
#define _lf_replace_template_token vf_replace_template
#define _lf_trigger_reaction vf_trigger_reaction
#define lf_schedule_trigger vf_schedule_trigger
#ifdef MODAL_REACTORS
bool vf_mode_is_active(reactor_mode_t* m);
void vf_mode_triggered(environment_t* e);
void vf_mode_startup(environment_t* env, reaction_t** startup, int ns, reaction_t** reset, int nr, reactor_mode_state_t** st, int n);
void vf_mode_shutdown(environment_t* env, reaction_t** r, int n);
void vf_add_suspended(event_t* e);
#define _lf_mode_is_active vf_mode_is_active
#define _lf_handle_mode_triggered_reactions vf_mode_triggered
#define _lf_handle_mode_startup_reset_reactions vf_mode_startup
#define _lf_handle_mode_shutdown_reactions vf_mode_shutdown
#define _lf_add_suspended_event vf_add_suspended
#endif
