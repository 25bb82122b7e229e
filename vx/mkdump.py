import sys; sys.path.insert(0,"/verif/vx")
import build
print(build.dumped(sys.argv[1]))
