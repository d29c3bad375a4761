from . import frames_common as F
LEVEL = "model_checking"
ASSUMPTIONS = ["the size of a buffer is what a frame of that shape takes on its own (at least its bytes, at most 1/8 + 16 KiB more)"]
def run(ctx):
    F.run(ctx, "C09", ["seq", "big", "seq", "bigconc"], True)
TECHNIQUE = "TLA+ model of frame buffers with reference counts checked by TLC; the counter logged after every operation on real frames compared with the model"
NOTE = "exhaustive for 3 frames of 2 planes; on the code: random histories with small and page-sized buffers, one and two cores, and whole scheduler sessions"
