/* functions that the functions under contract call are known by their contracts */
void vf_trigger_reaction(environment_t* e, reaction_t* r, int w);
#define _lf_trigger_reaction vf_trigger_reaction
#ifdef MODAL_REACTORS
bool vf_mode_is_active(reactor_mode_t* m);
#define _lf_mode_is_active vf_mode_is_active
#endif
