// Include after every standard header and before the seq headers under test
#define mutex vs_mutex
#define shared_mutex vs_mutex
#define recursive_mutex vs_mutex
#define timed_mutex vs_mutex
#define shared_timed_mutex vs_mutex
#define condition_variable vs_condition_variable
#define condition_variable_any vs_cva
#define this_thread vs_this_thread
#define system_clock vs_clock
#define steady_clock vs_clock
#define high_resolution_clock vs_clock
