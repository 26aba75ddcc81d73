/* The part of MPI the operators and datatypes use, for the checks of R19: an operator is its function, a datatype a number of basic elements. */
#ifndef VERIF_MPI_H
#define VERIF_MPI_H
typedef struct verif_type { int count; int size; int committed; } *MPI_Datatype;
typedef void MPI_User_function(void *, void *, int *, MPI_Datatype *);
typedef MPI_User_function *MPI_Op;
typedef int MPI_Comm;
typedef long MPI_Aint;
#define MPI_COMM_WORLD 1
#define MPI_SUCCESS 0
#define MPI_ERR_TYPE 3
#define MPI_ERR_COUNT 2
#define MPI_ERR_INTERN 17
#define MPI_ERR_OP 9
#define MPI_ERR_ARG 13
#define MPI_ERR_OTHER 16
extern struct verif_type verif_basic[8];
#define MPI_DOUBLE (verif_basic + 0)
#define MPI_FLOAT (verif_basic + 1)
#define MPI_BYTE (verif_basic + 2)
#define MPI_CHAR (verif_basic + 2)
#define MPI_C_DOUBLE_COMPLEX (verif_basic + 3)
#define MPI_DOUBLE_COMPLEX (verif_basic + 3)
#define MPI_C_FLOAT_COMPLEX (verif_basic + 4)
#define MPI_COMPLEX (verif_basic + 4)
#define MPI_INT (verif_basic + 5)
int MPI_Op_create(MPI_User_function *f, int commute, MPI_Op *op);
int MPI_Type_contiguous(int count, MPI_Datatype old, MPI_Datatype *type);
int MPI_Type_commit(MPI_Datatype *type);
int MPI_Abort(MPI_Comm comm, int code);
#endif
