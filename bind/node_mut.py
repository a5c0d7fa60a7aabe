import os, random, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
common.mutate(random.Random(int(sys.argv[3])), os.fsencode(sys.argv[1]), int(sys.argv[2]), utf8=True)
