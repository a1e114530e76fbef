from ref3d import *
run(sweep)
