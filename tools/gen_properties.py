import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=[observe]
    if state: d['anchors']['state']=state
    P.append(d)
B='src/binned/'
p('R01','Adding numbers one at a time is independent of their order',
 'Adding any collection of finite numbers one at a time to an empty reproducible accumulator, in any order, leaves bit-for-bit the same accumulator. This holds for real and complex accumulators of both precisions and for every supported fold.',
 ['inputs','histories'],'every finite input value (normal, subnormal, zero, either sign), every order of the additions, every accumulator size',
 'The tests sum a few fixed shapes of data in a few orders; the bits must agree for all values and all orders, including carries, window shifts and ties that random data almost never produces.',
 [B+x for x in ('dmdadd.c','dmdupdate.c','dmddeposit.c','dmrenorm.c','dmbins.c','zmzadd.c','smsadd.c','cmcadd.c')],
 [('deposit of slices into bins',B+'dmddeposit.c'),('window shift when a larger number arrives',B+'dmdupdate.c'),('carry propagation',B+'dmrenorm.c')],
 'bits of the accumulator after binned_?b?add / binned_?m?add')
p('R02','Partial accumulators merge to the same bits however the data were split',
 'Splitting any collection of finite numbers into groups, accumulating each group separately and merging the accumulators pairwise in any order or tree gives bit-for-bit the accumulator obtained by adding all numbers to one accumulator. Merging with an empty accumulator on either side changes nothing.',
 ['inputs','histories'],'every split into groups, every merge tree, all finite values, all relative positions of the two windows',
 'Tests merge a few equal-looking partial sums; the property concerns every pair of windows, including ones that overlap partly or not at all, and every carry pattern.',
 [B+x for x in ('dmdmadd.c','smsmadd.c','zmzmadd.c','cmcmadd.c','dbdbadd.c','zbzbadd.c')],
 [('aligning two windows and adding bins and carries',B+'dmdmadd.c')],'bits of the accumulator after binned_?b?badd')
p('R03','Vector sums equal one-at-a-time sums',
 'The vector summation routine leaves the target accumulator with exactly the bits that adding every strided element one at a time to the same starting accumulator would give, for any length including zero, any stride and any fold, real or complex.',
 ['inputs','configurations'],'every vector length, stride, fold, starting accumulator and finite content',
 'Block boundaries, remainder loops and specialised folds give thousands of code paths per routine and the tests exercise a handful of lengths with benign data.',
 ['src/binnedBLAS/dmdsum.ccog','src/binnedBLAS/zmzsum.ccog','src/binnedBLAS/smssum.ccog','src/binnedBLAS/cmcsum.ccog','src/binned/deposit.py','src/binnedBLAS/depositSum.py'],
 [('generated block loop and deposit kernels','src/binned/deposit.py'),('blocking and renormalisation between blocks','src/binnedBLAS/dmdsum.ccog')],'accumulator after binnedBLAS_?b?sum')
p('R04','Vector sums of absolute values equal one-at-a-time sums',
 'The absolute-value summation routines leave the target accumulator with exactly the bits that adding the absolute value of every strided element (of both components, for complex data) one at a time would give, for any length, stride and fold.',
 ['inputs','configurations'],'every vector length, stride, fold, starting accumulator and finite content of either sign, including negative zero',
 'Sign masks and remainder handling are separate per vector width, fold and stride; tests sample a few shapes.',
 ['src/binnedBLAS/dmdasum.ccog','src/binnedBLAS/dmzasum.ccog','src/binnedBLAS/smsasum.ccog','src/binnedBLAS/smcasum.ccog','src/binnedBLAS/depositASum.py'],
 [('generated kernels','src/binnedBLAS/depositASum.py')],'accumulator after binnedBLAS_?b?asum')
p('R05','Dot products accumulate exactly the elementwise rounded products',
 'A reproducible dot product leaves the target accumulator with exactly the bits that adding the rounded product of each pair of strided elements one at a time would give; complex products add both real partial products to the real part and both imaginary partial products to the imaginary part, with the first vector conjugated in the conjugated variant.',
 ['inputs','configurations'],'every length, pair of strides, fold, starting accumulator and finite content without overflowing products',
 'Lane shuffles, sign masks and remainders differ per vector width and fold; tests use few lengths and cannot separate a lane mix-up that cancels on symmetric data.',
 ['src/binnedBLAS/dmddot.ccog','src/binnedBLAS/zmzdotu.ccog','src/binnedBLAS/zmzdotc.ccog','src/binnedBLAS/smsdot.ccog','src/binnedBLAS/cmcdotu.ccog','src/binnedBLAS/cmcdotc.ccog','src/binnedBLAS/depositDot.py','src/binnedBLAS/depositDotU.py','src/binnedBLAS/depositDotC.py'],
 [('generated kernels','src/binnedBLAS/depositDot.py')],'accumulator after binnedBLAS_?b?dot*')
p('R06','Scaled sums of squares and norms are reproducible and do not overflow',
 'The sum-of-squares routine returns a power-of-two scale determined only by the largest magnitudes, and an accumulator holding exactly the squares of the elements divided by that scale; the norm is the scale times the square root of the converted accumulator. The result does not depend on the order, split into successive calls, or stride of the data, and finite data never overflow or vanish in the intermediate squares.',
 ['inputs','histories'],'every length, stride, fold, scale of the data from the smallest subnormal to the largest finite number, and split into consecutive calls',
 'The scale changes in mid-stream only for particular magnitude sequences, which sampled data do not reach.',
 ['src/binnedBLAS/dmdssq.ccog','src/binnedBLAS/dmzssq.ccog','src/binnedBLAS/smsssq.ccog','src/binnedBLAS/smcssq.ccog','src/binnedBLAS/depositSSq.py','src/reproBLAS/rdnrm2.c'],
 [('choice of scale',B+'dscale.c'),('rescaling the running sum','src/binned/dmdrescale.c'),('generated kernels','src/binnedBLAS/depositSSq.py')],'scale and accumulator of binnedBLAS_?b?ssq, result of reproBLAS_?nrm2')
p('R07','Scaled sums of squares combine exactly',
 'Combining two scaled sums of squares gives the larger scale and the accumulator in which the sum with the smaller scale has been shifted by exactly the square of the ratio of the scales, whichever argument has the larger scale. The first argument is left unchanged and no memory is lost.',
 ['inputs','histories'],'every pair of scales, accumulators and strides, both argument orders, empty accumulators',
 'There is no test of the combination with different scales in each direction for all strides, precisions and component types.',
 [B+x for x in ('dmdmaddsq.c','smsmaddsq.c','dmdrescale.c','zmdrescale.c','smsrescale.c','cmsrescale.c','dbdbaddsq.c','sbsbaddsq.c')],
 [('rescale',B+'dmdrescale.c'),('combination',B+'dmdmaddsq.c')],'result of binned_?b?baddsq')
p('R08','Matrix-vector products equal one-at-a-time dot products',
 'Every entry of a reproducible matrix-vector product holds exactly the bits obtained by adding, to that entry\'s starting accumulator, the rounded products of alpha-scaled vector entries with the matching matrix entries one at a time, for every storage order, transposition, leading dimension, stride, shape and scaling factor. Entries outside the result and all inputs stay untouched.',
 ['inputs','configurations'],'every order, transposition (including conjugation), shape, leading dimension, pair of strides, alpha and finite content',
 'Blocking and packing create shape-dependent paths; tests use a few shapes with unit strides.',
 ['src/binnedBLAS/dbdgemv.ccog','src/binnedBLAS/zbzgemv.ccog','src/binnedBLAS/sbsgemv.ccog','src/binnedBLAS/cbcgemv.ccog','src/reproBLAS/rdgemv.c'],
 [('blocking and packing','src/binnedBLAS/dbdgemv.ccog'),('beta handling and conversion','src/reproBLAS/rdgemv.c')],'accumulators after binnedBLAS_?b?gemv; vector after reproBLAS_r?gemv')
p('R09','Matrix-matrix products equal one-at-a-time dot products',
 'Every entry of a reproducible matrix-matrix product holds exactly the bits obtained by adding, to that entry\'s starting accumulator, the rounded products of the matching entries (with alpha applied as documented) one at a time, for every storage order, pair of transpositions, leading dimensions and shape. Entries outside the result and all inputs stay untouched.',
 ['inputs','configurations'],'every order, pair of transpositions, shape, leading dimensions, alpha, beta and finite content',
 'Block sizes and packing buffers only matter at particular shapes; tests use few.',
 ['src/binnedBLAS/dbdgemm.ccog','src/binnedBLAS/zbzgemm.ccog','src/binnedBLAS/sbsgemm.ccog','src/binnedBLAS/cbcgemm.ccog','src/reproBLAS/rdgemm.c'],
 [('blocking and packing','src/binnedBLAS/dbdgemm.ccog'),('beta handling and conversion','src/reproBLAS/rdgemm.c')],'accumulators after binnedBLAS_?b?gemm; matrix after reproBLAS_r?gemm')
p('R10','The largest-magnitude helpers return the true maximum',
 'The maximum helpers return the largest absolute value among the strided elements (separately for real and imaginary parts), or among the elementwise products, zero for no elements, and a value that is not finite whenever an element or product is not finite.',
 ['inputs','configurations'],'every length, stride and content including negative zero, subnormals, infinities and NaN in every position',
 'A missed lane or tail element shows only when the maximum sits exactly there; tests do not place it everywhere.',
 ['src/binnedBLAS/damax.ccog','src/binnedBLAS/damaxm.ccog','src/binnedBLAS/zamax_sub.ccog','src/binnedBLAS/zamaxm_sub.ccog','src/binnedBLAS/samax.ccog','src/binnedBLAS/samaxm.ccog','src/binnedBLAS/camax_sub.ccog','src/binnedBLAS/camaxm_sub.ccog','src/binnedBLAS/amax.py','src/binnedBLAS/amaxm.py'],
 [('generated maxima','src/binnedBLAS/amax.py')],'return value of binnedBLAS_?amax*')
p('R11','Infinities and NaN propagate reproducibly',
 'If the data contain a NaN, or infinities of both signs, the converted result is a NaN; if they contain infinities of one sign only, the result is that infinity; otherwise it is decided by the finite data alone. This holds whatever the order, position, split or routine used to add them, and a non-finite accumulator stays so when more data are added or merged.',
 ['inputs','histories'],'every position and combination of NaN and infinities among otherwise arbitrary finite data, for one-at-a-time, vector, merge and conversion operations',
 'Tests place special values in a few positions; propagation through block boundaries, merges and deferred renormalisation has many more paths.',
 [B+'dmdadd.c',B+'dmddeposit.c',B+'dmdupdate.c',B+'dmdmadd.c',B+'dmrenorm.c',B+'ddmconv.c','src/binnedBLAS/dmdsum.ccog','src/binnedBLAS/dmdssq.ccog'],
 [('special-value early exits',B+'dmddeposit.c'),('block handling of a non-finite maximum','src/binnedBLAS/dmdsum.ccog')],'first primary component; converted value')
p('R12','Conversion to a floating-point number is accurate and free of spurious overflow',
 'Converting an accumulator to a floating-point number returns its exact value up to a few units in the last place, relative to the exactly represented value, for every reachable accumulator; it overflows only when the exact value is at the edge of the range, and converting an empty accumulator gives zero.',
 ['inputs','histories'],'every reachable accumulator at every window position, fold and stride',
 'The scaled conversion branches near the overflow threshold and intermediate cancellation are not reached by sampled sums.',
 [B+x for x in ('ddmconv.c','ssmconv.c','zzmconv_sub.c','ccmconv_sub.c','ddbconv.c','ssbconv.c')],
 [('scaled Horner-like evaluation',B+'ddmconv.c')],'return value of binned_??bconv')
p('R13','Converting a number in and back returns the number',
 'Storing a finite floating-point number in an accumulator equals adding it to an empty one, discards whatever the accumulator held, and with a fold of at least two in double precision (three in single precision) for numbers that the window can hold entirely, converting back returns exactly the same number.',
 ['inputs'],'every finite number, every previous content of the accumulator, every stride',
 'Exact round trips depend on the slicing at each bin boundary; tests try few values.',
 [B+x for x in ('dmdconv.c','smsconv.c','zmzconv.c','cmcconv.c','dbdconv.c','ddmconv.c')],
 [('set to zero then add',B+'dmdconv.c')],'result of binned_??conv after binned_?b?conv')
p('R14','Deferred renormalisation is exact up to the documented endurance',
 'After the window has been prepared for a bound on the data, depositing up to the documented number of values without renormalising and then renormalising once leaves exactly the bits that the same number of separate additions would leave.',
 ['inputs','histories'],'every sequence of deposits up to the documented endurance, every mixture of signs and magnitudes within the bound, every window position',
 'The accumulator drifts out of its safe range only for long runs of extreme same-signed values.',
 [B+x for x in ('dmdupdate.c','dmddeposit.c','dmrenorm.c','zmzdeposit.c','smsdeposit.c','cmcdeposit.c')]+['include/binned.h'],
 [('documented endurance','include/binned.h'),('carry extraction',B+'dmrenorm.c')],'accumulator bits after update, deposits, renormalisation')
p('R15','Renormalisation keeps the value and reaches the canonical form',
 'Renormalising an accumulator whose primary parts lie anywhere in their binades leaves the represented value of every bin unchanged, moves every primary part into the canonical quarter of its binade with the difference in the carry, leaves empty and non-finite accumulators alone, and touches only the strided elements it was given.',
 ['inputs'],'every bit pattern of every primary part in its binade, every carry, every fold and stride',
 'A renormalisation that errs only at a quarter-binade boundary is invisible to sampled data.',
 [B+x for x in ('dmrenorm.c','smrenorm.c','zmrenorm.c','cmrenorm.c','dbrenorm.c','sbrenorm.c','zbrenorm.c','cbrenorm.c')],
 [('exponent and mantissa bit surgery',B+'dmrenorm.c')],'primary and carry bits before and after')
p('R16','Index, bin, unit and scale helpers match their definitions',
 'For every bit pattern, the index helpers return the number of the bin a value or accumulator belongs to, the bin table holds the documented starting values, the unit-in-first-place helpers return the leading power of two of their argument in its own precision, and the scale helper returns a power of the bin width within the documented distance of its argument.',
 ['inputs'],'every bit pattern of the argument',
 'These bit-level formulas have boundaries at every exponent and at subnormals; tests check a few.',
 [B+x for x in ('dindex.c','dmindex.c','dmindex0.c','dmbins.c','ufp.c','ufpf.c','dscale.c','sindex.c','smindex.c','smindex0.c','smbins.c','sscale.c')]+['src/common/common.h'],
 [('exponent arithmetic',B+'dindex.c'),('unit in the first place','src/common/common.h')],'return values')
p('R17','Copying, clearing, negating, sizing and allocating are exact',
 'Setting an accumulator from another copies every element, clearing makes it the empty accumulator, negation gives the accumulator of the negated data (so that adding it back cancels exactly), and the size, count and allocation helpers describe the same layout that all other operations use, with a freshly allocated accumulator empty or ready to be set; complex variants act on both parts and real-to-complex variants clear the imaginary part.',
 ['inputs','configurations'],'every accumulator content, fold and stride',
 'Simple loops with four stride arguments per vector: a wrong stride is invisible with packed accumulators of one fold.',
 [B+x for x in ('dmdmset.c','zmzmset.c','zmdmset.c','dmsetzero.c','zmsetzero.c','dmnegate.c','zmnegate.c','dbnum.c','dbsize.c','dballoc.c','sbsbze.c','smsmset.c','cmsmset.c','smnegate.c','cmnegate.c')],
 [('element loops',B+'dmdmset.c'),('negation about the bin start',B+'dmnegate.c')],'element values')
p('R18','Routines touch only the memory they are given and lose none',
 'No routine reads or writes outside the elements described by its length, stride, fold and leading-dimension arguments, writes to an input, reads uninitialised memory, or leaves memory it allocated unreleased.',
 ['inputs','configurations','histories'],'every combination of lengths, strides, folds and shapes',
 'An overrun by one vector element or a leak is silent in the tests.',
 ['src/binnedBLAS/dmdsum.ccog','src/binned/deposit.py','src/binnedBLAS/dbdgemv.ccog','src/binnedBLAS/dbdgemm.ccog',B+'dmdmaddsq.c','src/reproBLAS/rdgemv.c'],
 [('tail handling of the generated kernels','src/binned/deposit.py'),('temporary buffers','src/binnedBLAS/dbdgemv.ccog')],'memory accesses')
p('R19','The message-passing reduction operators combine like the library',
 'The reduction operator for each fold adds every element of the incoming vector of accumulators (or scaled sums of squares, including their scales) to the matching element of the other exactly as the library\'s own combination does, the datatype for each fold describes exactly one such element, and both exist for every fold in the supported range.',
 ['inputs','configurations'],'every fold, vector length and content',
 'The message-passing part is not run by any test.',
 ['src/binnedMPI/DBDBADD.ccog','src/binnedMPI/ZBZBADD.ccog','src/binnedMPI/DBDBADDSQ.ccog','src/binnedMPI/SBSBADD.ccog','src/binnedMPI/CBCBADD.ccog','src/binnedMPI/SBSBADDSQ.ccog','src/binnedMPI/DOUBLE_BINNED.c','src/binnedMPI/FLOAT_BINNED_SCALED.c'],
 [('per-fold operator table','src/binnedMPI/DBDBADD.ccog'),('datatype sizes','src/binnedMPI/DOUBLE_BINNED.c')],'in/out vector after applying the operator')
p('R20','The one-call routines equal accumulate-then-convert',
 'Each one-call summation, absolute sum, dot product and norm returns exactly the conversion of an empty accumulator to which the data were added, for the requested fold; the variants without a fold argument behave as the default fold of the configuration; zero-length input gives zero.',
 ['inputs','configurations'],'every length, stride, fold and content, every routine and precision',
 'Dozens of small wrappers with easily confused arguments, only some of which are tested.',
 ['src/reproBLAS/rdsum.c','src/reproBLAS/dsum.c','src/reproBLAS/rzdotc_sub.c','src/reproBLAS/rdnrm2.c','src/reproBLAS/snrm2.c','config.h'],
 [('wrappers','src/reproBLAS/rdsum.c')],'returned value')
p('R21','Results do not depend on vector width or tuning',
 'The same call on the same data gives bit-for-bit the same accumulator whether the library was generated for wide vectors, narrow vectors or none, and whatever unrolling, pipelining, fold specialisation and block-size parameters the tuner picked from its allowed ranges.',
 ['configurations','inputs'],'every vector instruction set the generator supports and every setting of the tuning parameters, all finite data',
 'The tests run one build with one tuning.',
 ['src/binned/deposit.py','src/gen/vectorizations.py','src/gen/dataTypes.py','src/gen/generate.py','src/common/blockSize.py','src/tuned_args.json','src/params.json'],
 [('code generation for each vectorisation','src/gen/vectorizations.py')],'accumulator bits in each generated variant')
p('R22','The advertised error bound bounds the error',
 'The advertised error bound for a sum of a given number of values with a given largest magnitude and a given computed result is a finite non-negative upper bound of the distance between the exact sum and the converted reproducible sum, grows with the number of values and the magnitude, and follows the documented formula.',
 ['inputs'],'every fold, count, largest magnitude and result',
 'Tests compare a few sums whose true error is far below the bound.',
 [B+'dbbound.c',B+'sbbound.c'],[('bound formula',B+'dbbound.c')],'return value of binned_?bbound')
p('R23','Element-wise merges of accumulator vectors equal single merges',
 'Merging a strided vector of accumulators into another gives in each position exactly what merging those two accumulators alone gives, for any length, strides (counted in whole accumulators) and fold, leaving accumulators between the strided positions untouched.',
 ['inputs','configurations'],'every length, pair of strides and fold; all accumulator contents',
 'Tests use unit strides or equal contents, under which wrong pointer steps coincide.',
 [B+x for x in ('dbdbaddv.c','zbzbaddv.c','sbsbaddv.c','cbcbaddv.c')],[('pointer steps',B+'dbdbaddv.c')],'vector of accumulators')
p('R24','Complex accumulators behave as two independent real ones',
 'Every operation on a complex accumulator acts on its real and imaginary parts exactly as the real operation would on two separate accumulators with their own windows, and adding or storing real data in a complex accumulator affects only the real part (clearing the imaginary one when storing).',
 ['inputs','histories'],'all accumulator contents with different windows, zero or non-finite states in the two parts, and all strides',
 'Tests use parts of similar magnitude, so that windows coincide and a crossed index or shared early exit is invisible.',
 [B+x for x in ('zmzadd.c','zmzupdate.c','zmdupdate.c','zmzdeposit.c','zmrenorm.c','zmzmadd.c','zzmconv_sub.c','zmdrescale.c','zmzconv.c','cmcdeposit.c')],
 [('doubled strides and part offsets',B+'zmzadd.c')],'bits of both parts')
p('R25','Strided accumulators equal packed ones',
 'Every operation on an accumulator given as separate primary and carry vectors with arbitrary strides produces in the strided positions exactly the bits the packed operation produces, and leaves the positions in between untouched.',
 ['inputs','configurations'],'every pair of primary and carry strides for each operand, all contents',
 'The packed forms use unit strides with the carry right behind the primary part, under which swapped or dropped stride arguments coincide.',
 [B+x for x in ('dmdadd.c','dmdmadd.c','dmrenorm.c','ddmconv.c','zzmconv_sub.c','dmdrescale.c','dmnegate.c','dmdmset.c')],
 [('stride arithmetic',B+'dmdmadd.c')],'strided and packed results')
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['title']
