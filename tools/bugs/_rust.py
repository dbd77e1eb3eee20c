import os
K = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "kit")
def rust(demo):
    return dict(LITE=True, SH=open(os.path.join(K, "rust_demo.sh")).read(),
                EXTRA={"demo.rs": demo, "rust_demo.py": open(os.path.join(K, "rust_demo.py")).read(), "gen_bridge.py": open(os.path.join(K, "..", "..", "gen_bridge.py")).read()})
