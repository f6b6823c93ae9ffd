# writes the "fixed" lines of known-findings.jsonl from the fix: commits of /repo
import subprocess
M=[('clear every body pointer','C18','a new constraint left m_bodies[1] uninitialised (memset of sizeof(int) * 2)'),
('forget the capacity of a destroyed','C04','initialising a destroyed sparse matrix again at a size within its old capacity wrote through null'),
('initialise the values of an empty','C04','a freshly initialised sparse matrix held uninitialised values in its empty entries (read back by both systems as reported forces)'),
('address more than 255 blocks','C35','block indices above 254 were truncated to 8 bits (255 meant empty), so constraints acted on the wrong body'),
('copy a smaller system state','C11','copying a smaller state into a larger one read past the source; copying an empty-body state lost its reactions'),
('release the zero-length arrays','C11','a state with zero bodies or zero rows leaked its zero-length arrays'),
('release the working matrices','C33','destroying a generic system leaked its matrices (and aborted in the matrix destructor with assertions on)'),
("report each body's own constraint force",'C26','the generic system reported r[i] instead of r[2 i + k] as the force on body k of row i'),
('do not accelerate bodies that are not in','C30','the reaction on an unregistered body was added to element -1 of the acceleration arrays'),
('apply no spring force to an end','C21','a spring end outside the system had its force applied to element -1 of the state'),
('shape the result of an empty system','C05','with no equations the result kept its earlier length, which the systems then rejected by an assertion'),
('start and stop the unlimited Gauss-Seidel','C06','the unlimited solver started from uninitialised memory and its stop test did not measure the change'),
('never take a non-finite Gauss-Seidel','C07','NaN differences counted as converged'),
('never take a NaN residual','C08','conjugate gradient reported success with a NaN residual'),
('advance RK4 stage positions','C10','RK4 stages advanced positions with the new stage velocity: not fourth order'),
('average the constraint reactions','C26','RK4 accumulated only half of the reactions, on top of stale values and scaled by dt'),
('follow the row order of a matrix','C02','dot, magnitude and array fill ignored swapped rows and read storage order'),
('a matrix with NaN entries','C01','equals reported matrices with NaN entries as equal'),
('mark removed elements','C23','a removed body kept its old index and so still counted as registered'),
('roll by arc length','C16','the rolling row scaled travel by the radius instead of the rotation, and ignored rotation of the base'),
('scale a sparse matrix of any entry','C03','scaling a matrix with other than two entries per row had to write to one with two: assertion (or a write outside the row) at the third'),
('solve an empty system in the conjugate','C33','a system without constraints made the conjugate gradient solver abort on the shape of the previous solution')]
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()
out=[]
for k,p,w in M:
    h=[l.split()[0] for l in log if k in l]
    assert len(h)==1,(k,h)
    out.append('fixed: property=%s %s %s'%(p,h[0],w))
open('/verif/known-findings.jsonl','w').write('\n'.join(out)+'\n')
