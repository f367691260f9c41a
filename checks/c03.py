"""C03: reported media, surfaces and normals match the scene geometry."""
import common
common.setup_path()
import tracework

chk = tracework.standard(
    "C03", "a flight judged against the analytic geometry oracle (first surface, media on both sides, normal)", "geo")
chk.require("flights_judged", 50000)
chk.require("distinct_interfaces", 150)
chk.require("distinct_normals", 500)
chk.finish()
