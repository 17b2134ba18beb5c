"""setup: builds the THIR driver and warms the dependency build."""
import frontend
d = frontend.load_crates()
for c, j in d.items():
    print(c, len(j["bodies"]), "bodies")
