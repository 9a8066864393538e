/* Linked into every workload object so that its thread_locals come from the simulator. */
extern void* sim_emutls_get_address(void*);
__attribute__((visibility("hidden"))) void* __emutls_get_address(void* c)
{
	return sim_emutls_get_address(c);
}
