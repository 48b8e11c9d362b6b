from anychecks import ANY
from chartchecks import CHARTS
from clichecks import CLI
from contchecks import CONT
from genchecks import GEN
from progchecks import PROG
from purecheck import PURE
from reportchecks import REPORT
from resultchecks import RESULTS
from statchecks import STAT
from textchecks import TEXT
from threadchecks import THREADS

CHECKS = {**STAT, **ANY, **CONT, **PURE, **CLI, **GEN, **TEXT, **PROG, **CHARTS, **REPORT, **THREADS,
          **RESULTS}

_T = ("TLA+ model checking (TLC) of an executable specification, and conformance of the code "
      "by replaying its behaviours and validating recorded ones")
NOTES = {
    "P": (_T, "The progress of a run is a state machine in TLA+, whose runs are model-checked within "
              "bounds (also for completion), and whose acceptance of logs is checked to reject every "
              "omitted or repeated step; the progress of generated calls and whole runs is recorded, "
              "and TLC validates every event. Sampled."),
    "R": (_T, "The form of every text, and the rounding of its numbers, is specified in TLA+ and "
              "model-checked on small rationals; the texts of generated results are parsed, and TLC "
              "decides whether each states its result object. Sampled."),
    "G": (_T, "The generators are machines in TLA+, whose interleavings are model-checked within "
              "bounds and replayed on the real ones; TLC computes every bit of long and generated "
              "runs, of any seed. Sampled, not proved, for all seeds."),
    "L": (_T, "The command line is a state machine in TLA+ (files of results, stored outcomes, "
              "commands), model-checked on all histories within bounds, which are replayed on the "
              "real commands in scratch directories; TLC validates everything which was stored "
              "and printed. Exhaustive within the bounds, sampled for data."),
    "D": (_T, "The container is a state machine in TLA+, whose laws are model-checked on all "
              "histories within bounds; these histories are replayed on the real class, and long "
              "generated ones recorded from it, and TLC validates every result of every "
              "operation. Exhaustive within the bounds, sampled beyond."),
    "A": (_T, "The specification of what all tests share (gate, parameters, recommendations, "
              "ranges) is model-checked exhaustively within bounds; the code is checked on the "
              "inputs it emits and on generated ones at its boundaries, whose recorded calls TLC "
              "validates. Sampled, not proved, beyond the bounds."),
    "S": (_T, "The specification is model-checked exhaustively on short sequences against "
              "declarative definitions; the code is checked on all these sequences, and on "
              "generated long ones at the boundaries, whose recorded calls TLC validates. "
              "Discrete results are compared exactly, real ones to about 1e-9 (the terms which "
              "TLC writes are evaluated by mpmath). Sampled, not proved, for long sequences."),
}
