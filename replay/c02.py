from ref1d import *
run(lambda: sweep('values'))
