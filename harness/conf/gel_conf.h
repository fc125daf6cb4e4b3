/* Library configuration of the harness; every choice can be overridden with -D. */
#ifndef MON_GEL_CONF_H
#define MON_GEL_CONF_H

#ifndef GEL_PARAMETER_MAX_SIZE
#define GEL_PARAMETER_MAX_SIZE 8
#endif

#ifndef PMAN_NAVIGATION_DEPTH
#define PMAN_NAVIGATION_DEPTH 5
#endif
#ifndef PMAN_POINTERS
#ifdef PMAN_VOID_VIEW
#define PMAN_VIEW_NULL
typedef void pman_view_t;
#else
#define PMAN_VIEW_NULL (-1)
typedef int pman_view_t;
#endif
#define PMAN_DATA_NULL (-7)
typedef int pman_message_t;
typedef int pman_event_t;
typedef int pman_page_data_t;
typedef int pman_model_t;
#else
#define PMAN_VIEW_NULL NULL
#define PMAN_DATA_NULL NULL
typedef struct { int code; long extra; } pman_message_t;
typedef const char *pman_event_t;
typedef void *pman_page_data_t;
typedef void *pman_model_t;
typedef const void *pman_view_t;
#endif

#ifndef MON_PID_CONTROL
#define MON_PID_CONTROL int
#endif
#ifndef MON_PID_OUTPUT
#define MON_PID_OUTPUT int
#endif
typedef MON_PID_CONTROL pid_control_type_t;
typedef MON_PID_OUTPUT pid_output_type_t;
#ifndef GEL_PID_INTEGRAL_HISTORY_SIZE
#define GEL_PID_INTEGRAL_HISTORY_SIZE 8
#endif
#ifndef GEL_PID_DERIVATIVE_DELTA
#define GEL_PID_DERIVATIVE_DELTA 5
#endif

#ifndef GEL_MALLOC_AVAILABLE
#define GEL_MALLOC_AVAILABLE 0
#endif
#ifndef GEL_STATIC_BLOCK_SIZE
#define GEL_STATIC_BLOCK_SIZE 80
#endif

#define WL_BLOCK_SIZE 4

#endif
