// The part of MPI the request pool uses. Completion is decided by the test program.
#pragma once
struct StubRequest { int id; };
typedef StubRequest* MPI_Request;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long count[2]; };
#define MPI_REQUEST_NULL ((MPI_Request) 0)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
#define MPI_STATUS_IGNORE ((MPI_Status*) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status*) 0)
int MPI_Testsome(int n, MPI_Request req[], int* outcount, int indices[], MPI_Status st[]);
int MPI_Test(MPI_Request* req, int* flag, MPI_Status* st);
int MPI_Testany(int n, MPI_Request req[], int* index, int* flag, MPI_Status* st);
int MPI_Testall(int n, MPI_Request req[], int* flag, MPI_Status st[]);
