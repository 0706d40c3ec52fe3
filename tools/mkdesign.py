#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design_head.md, design_props.md (per property) and design_tail.md."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/"
r = lambda f: open(V + "tools/" + f).read()
open(V + "DESIGN.md", "w").write(r("design_head.md").replace("@@PROPS@@", r("design_props.md") + "\n" + r("design_tail.md")))
