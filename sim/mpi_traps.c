/* MPI functions that are not simulated: their use is reported, never silently wrong. */
extern void sim_trap(const char *);
#define TRAP(f) int f(void) { sim_trap(#f); return 1; }
TRAP(MPI_Accumulate) TRAP(MPI_Comm_create) TRAP(MPI_Dist_graph_create_adjacent) TRAP(MPI_File_close) TRAP(MPI_File_get_position) TRAP(MPI_File_open)
TRAP(MPI_File_read_all) TRAP(MPI_File_read_at) TRAP(MPI_File_read_at_all) TRAP(MPI_File_set_size) TRAP(MPI_File_set_view) TRAP(MPI_File_sync) TRAP(MPI_File_write_all)
TRAP(MPI_File_write_at) TRAP(MPI_File_write_at_all) TRAP(MPI_Get) TRAP(MPI_Get_accumulate) TRAP(MPI_Iallgather) TRAP(MPI_Iallgatherv) TRAP(MPI_Iallreduce)
TRAP(MPI_Ialltoall) TRAP(MPI_Ibcast) TRAP(MPI_Igather) TRAP(MPI_Igatherv) TRAP(MPI_Ineighbor_alltoallv) TRAP(MPI_Info_dup) TRAP(MPI_Info_get) TRAP(MPI_Info_get_nkeys)
TRAP(MPI_Info_get_nthkey) TRAP(MPI_Iscatter) TRAP(MPI_Iscatterv) TRAP(MPI_Neighbor_alltoallv) TRAP(MPI_Rget) TRAP(MPI_Type_create_subarray)
TRAP(MPI_Win_allocate_shared) TRAP(MPI_Win_complete) TRAP(MPI_Win_create) TRAP(MPI_Win_fence) TRAP(MPI_Win_free) TRAP(MPI_Win_lock) TRAP(MPI_Win_post)
TRAP(MPI_Win_shared_query) TRAP(MPI_Win_start) TRAP(MPI_Win_unlock) TRAP(MPI_Win_wait) TRAP(MPI_Bsend) TRAP(MPI_Rsend) TRAP(MPI_Ibsend) TRAP(MPI_Irsend)
TRAP(MPI_Buffer_attach) TRAP(MPI_Buffer_detach) TRAP(MPI_Ireduce) TRAP(MPI_Mprobe) TRAP(MPI_Mrecv) TRAP(MPI_Improbe) TRAP(MPI_Imrecv)
TRAP(MPI_Testany) TRAP(MPI_Testsome) TRAP(MPI_Pack) TRAP(MPI_Unpack) TRAP(MPI_Type_vector) TRAP(MPI_Type_indexed) TRAP(MPI_Type_create_hindexed) TRAP(MPI_Type_create_hvector)
TRAP(MPI_Cart_create) TRAP(MPI_Comm_create_group) TRAP(MPI_Comm_idup) TRAP(MPI_Alltoallw) TRAP(MPI_Intercomm_create) TRAP(MPI_Comm_spawn)
