"""C06: combine-ncc against specification Land."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness")); sys.path.insert(0, os.path.dirname(__file__))
import core, land_body
sys.exit(core.main("C06", land_body.TOOLS, land_body.body_for("combine")))
