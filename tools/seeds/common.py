import os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(D, ".."))
from mkseed import make
MINI = {"mini.hpp": open(os.path.join(D, "mini.hpp")).read()}
T = "src/track/track.cpp"
SW = "src/writer/simple_writer.cpp"
FW = "src/writer/faststart_writer.cpp"


def m(id, prop, edits, needs, breaks, main, pre="", env=""):
    make(id, prop, edits, needs, breaks,
         '#include "mini.hpp"\n' + pre + "\nint main() {\n  try {\n" + main + "\n  } catch (const std::exception& e) { puts(e.what()); return 2; }\n}\n", env=env, extra=MINI)


