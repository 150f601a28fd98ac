#undef mutex
#undef shared_mutex
#undef recursive_mutex
#undef timed_mutex
#undef shared_timed_mutex
#undef condition_variable
#undef condition_variable_any
#undef this_thread
#undef system_clock
#undef steady_clock
#undef high_resolution_clock
