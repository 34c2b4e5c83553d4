"""Switches of theories that hold only under an obligation's precondition; all are off when an obligation starts."""
FLAGS = []
def flag():
    f = [False]; FLAGS.append(f); return f
def reset():
    for f in FLAGS: f[0] = False
