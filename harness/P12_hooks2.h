#undef _lf_trigger_reaction
#undef lf_schedule_trigger
#ifdef MODAL_REACTORS
#undef _lf_mode_is_active
#undef _lf_handle_mode_triggered_reactions
#undef _lf_handle_mode_startup_reset_reactions
#undef _lf_handle_mode_shutdown_reactions
#undef _lf_add_suspended_event
#endif
