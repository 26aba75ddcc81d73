#include <mpi.h>
#include <binned.h>
#include <binnedMPI.h>

struct verif_type verif_basic[8] = {{1, 8, 1}, {1, 4, 1}, {1, 1, 1}, {1, 16, 1}, {1, 8, 1}, {1, 4, 1}, {0, 0, 0}, {0, 0, 0}};
static struct verif_type derived[64];
static int nderived;
static int aborted;

int MPI_Op_create(MPI_User_function *f, int commute, MPI_Op *op){
  *op = f;
  return MPI_SUCCESS;
}

int MPI_Type_contiguous(int count, MPI_Datatype old, MPI_Datatype *type){
  if(count < 0 || nderived == 64){
    return MPI_ERR_COUNT;
  }
  derived[nderived].count = count * old->count;
  derived[nderived].size = old->size;
  derived[nderived].committed = 0;
  *type = derived + nderived;
  nderived++;
  return MPI_SUCCESS;
}

int MPI_Type_commit(MPI_Datatype *type){
  (*type)->committed = 1;
  return MPI_SUCCESS;
}

int MPI_Abort(MPI_Comm comm, int code){
  aborted = 1;
  return code;
}

static MPI_Op op_of(int which, int fold){
  switch(which){
    case 0: return binnedMPI_DBDBADD(fold);
    case 1: return binnedMPI_SBSBADD(fold);
    case 2: return binnedMPI_ZBZBADD(fold);
    case 3: return binnedMPI_CBCBADD(fold);
    case 4: return binnedMPI_DBDBADDSQ(fold);
    default: return binnedMPI_SBSBADDSQ(fold);
  }
}

static MPI_Datatype type_of(int which, int fold){
  switch(which){
    case 0: return binnedMPI_DOUBLE_BINNED(fold);
    case 1: return binnedMPI_FLOAT_BINNED(fold);
    case 2: return binnedMPI_DOUBLE_COMPLEX_BINNED(fold);
    case 3: return binnedMPI_FLOAT_COMPLEX_BINNED(fold);
    case 4: return binnedMPI_DOUBLE_BINNED_SCALED(fold);
    default: return binnedMPI_FLOAT_BINNED_SCALED(fold);
  }
}

/* a reduction step, as MPI performs it: X is combined into Y. 0 if the operator can be used */
int verif_reduce(int which, int fold, void *X, void *Y, int n){
  MPI_Op op;
  MPI_Datatype type;
  aborted = 0;
  op = op_of(which, fold);
  type = type_of(which, fold);
  if(aborted || !op || !type || !type->committed || op != op_of(which, fold) || type != type_of(which, fold)){
    return 1;
  }
  op(X, Y, &n, &type);
  return 0;
}

/* bytes that MPI transfers for an element of the datatype; -1 if it is not committed */
int verif_extent(int which, int fold){
  MPI_Datatype type = type_of(which, fold);
  return type->committed ? type->count * type->size : -1;
}
