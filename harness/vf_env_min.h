/* Stubs for what lies outside the verified code.
 * STUB: lf_print*, lf_vprint*: no effect */
#ifndef VF_ENV_MIN_H
#define VF_ENV_MIN_H
#include <stdarg.h>
void lf_print(const char* f, ...) {}
void lf_print_log(const char* f, ...) {}
void lf_print_debug(const char* f, ...) {}
void lf_print_warning(const char* f, ...) {}
void lf_print_error(const char* f, ...) {}
#ifndef VF_OWN_EXIT
/* STUB: lf_print_error_and_exit, lf_print_error_system_failure: end the path (process exit) */
void lf_print_error_and_exit(const char* f, ...) { VF_STOP(); }
void lf_print_error_system_failure(const char* f, ...) { VF_STOP(); }
#endif
#endif
