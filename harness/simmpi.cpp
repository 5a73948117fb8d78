/* Objects of the MPI library that its header refers to by address. */
char ompi_mpi_comm_world[4096], ompi_mpi_int[4096], ompi_mpi_char[4096];
