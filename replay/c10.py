from ref2d import *
run(sweep)
