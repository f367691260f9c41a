"""C01: every photon history is one complete, well-formed life cycle."""
import common
common.setup_path()
import tracework

chk = tracework.standard(
    "C01", "an event whose position in the life cycle, attribution or source label was judged", "life")
chk.require("events", 50000)
chk.require("distinct_outcome_kinds", 6)
chk.finish()
