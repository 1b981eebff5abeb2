From 2c13a0f5320152337f37a994efa0632f8320131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:49 +0000
Subject: [PATCH 001/100] fix: stop reading the title at the first block or at
 end of file

---
 toughio/_io/input/tough/_read.py | 40 ++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index b813cfe..9f78777 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -8,6 +8,33 @@ __all__ = [
 ]
 
 
+block_keywords = (
+    "ROCKS",
+    "RPCAP",
+    "FLAC",
+    "MULTI",
+    "SOLVR",
+    "START",
+    "PARAM",
+    "SELEC",
+    "INDOM",
+    "MOMOP",
+    "TIMES",
+    "FOFT",
+    "COFT",
+    "GOFT",
+    "GENER",
+    "DIFFU",
+    "OUTPU",
+    "ELEME",
+    "COORD",
+    "CONNE",
+    "INCON",
+    "NOVER",
+    "ENDCY",
+)
+
+
 def read(filename, label_length=None):
     """
     Read TOUGH input file.
@@ -42,17 +69,20 @@ def read_buffer(f, label_length):
 
     # Title
     line = f.readline().strip()
-    if line[:5] not in {"ROCKS", "ELEME", "INCON", "GENER"}:
+    if line[:5] not in {"ROCKS", "ELEME", "CONNE", "INCON", "GENER"}:
         title = [line]
         while True:
-            line = f.readline().strip()
-            if not line.startswith("ROCKS"):
-                title.append(line)
+            i = f.tell()
+            line = f.readline()
+            if line and not line.startswith(block_keywords):
+                title.append(line.strip())
             else:
                 break
 
         parameters["title"] = title[0] if len(title) == 1 else title
-    f.seek(0)
+        f.seek(i)
+    else:
+        f.seek(0)
 
     # Loop over blocks
     # Some blocks (INCON, INDOM, PARAM) need to rewind to previous line but tell and seek are disabled by next
-- 
2.43.0


From e38f70eebf716c3fdf3410a1602867667c7a09bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:35 +0000
Subject: [PATCH 002/100] fix: do not lose the block that follows an OUTPU
 block without variables

---
 toughio/_io/input/tough/_read.py  | 7 +++++--
 toughio/_io/input/tough/_write.py | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 9f78777..53e0459 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -137,7 +137,7 @@ def read_buffer(f, label_length):
         elif line.startswith("DIFFU"):
             parameters.update(_read_diffu(fiter, f))
         elif line.startswith("OUTPU"):
-            parameters.update(_read_outpu(fiter))
+            parameters.update(_read_outpu(fiter, f))
         elif line.startswith("ELEME"):
             parameters.update(_read_eleme(fiter, label_length))
             parameters["coordinates"] = False
@@ -580,7 +580,7 @@ def _read_diffu(f, fh):
     return diffu
 
 
-def _read_outpu(f):
+def _read_outpu(f, fh):
     """Read OUTPU block data."""
     fmt = block_to_format["OUTPU"]
     outpu = {"output": {}}
@@ -589,7 +589,10 @@ def _read_outpu(f):
     line = next(f).strip()
     if line and not line.isdigit():
         outpu["output"]["format"] = line if line else None
+        i = fh.tell()
         line = next(f).strip()
+        if not line.isdigit():
+            fh.seek(i)
 
     # Variables
     names = {}
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 1caba5a..61d457c 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -134,7 +134,11 @@ def write_buffer(parameters, block):
 
     if block == "all":
         out += _write_diffu(parameters) if parameters["diffusion"] is not None else []
-        out += _write_outpu(parameters) if parameters["output"] else []
+        out += (
+            _write_outpu(parameters)
+            if parameters["output"] and any(parameters["output"].values())
+            else []
+        )
 
     if block in {"all", "mesh"}:
         out += _write_eleme(parameters) if parameters["elements"] else []
-- 
2.43.0


From 3b8e667a2f108ea80d9340e7a61cfcd800bbb6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:35 +0000
Subject: [PATCH 003/100] fix: keep DELTEN of block PARAM as given, blank or
 fractional

---
 toughio/_io/input/tough/_read.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 53e0459..2862ec6 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -327,17 +327,17 @@ def _read_param(f, fh):
         }
     )
 
-    t_steps = int(data[2])
-    if t_steps >= 0.0:
-        param["options"]["t_steps"] = t_steps
-    else:
+    t_steps = data[2]
+    if t_steps is not None and t_steps < 0.0:
         param["options"]["t_steps"] = []
-        for _ in range(-t_steps):
+        for _ in range(-int(t_steps)):
             line = next(f)
             data = read_record(line, fmt[3])
             param["options"]["t_steps"] += prune_nones_list(data)
-        if len(param["options"]["t_steps"]) == 1:
-            param["options"]["t_steps"] = param["options"]["t_steps"][0]
+        if len(param["options"]["t_steps"]) < 2:
+            param["options"]["t_steps"] = (
+                param["options"]["t_steps"][0] if param["options"]["t_steps"] else None
+            )
 
     # Record 3
     line = next(f)
-- 
2.43.0


From dd5605b507326784a8d3553c87852bf91523c53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:35 +0000
Subject: [PATCH 004/100] fix: read blocks PARAM and MOMOP with blank or short
 option records

---
 toughio/_io/input/tough/_read.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 2862ec6..2ad02e1 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -309,7 +309,7 @@ def _read_param(f, fh):
         "effective_strength_vapor": data[8],
     }
     param["extra_options"] = {
-        i + 1: int(x) for i, x in enumerate(data[5]) if x.isdigit()
+        i + 1: int(x) for i, x in enumerate(data[5] or "") if x.isdigit()
     }
 
     # Record 2
@@ -446,7 +446,9 @@ def _read_momop(f):
     line = next(f)
     data = read_record(line, fmt)
     momop = {
-        "more_options": {i + 1: int(x) for i, x in enumerate(data[0]) if x.isdigit()}
+        "more_options": {
+            i + 1: int(x) for i, x in enumerate(data[0] or "") if x.isdigit()
+        }
     }
 
     return momop
-- 
2.43.0


From 2f80ac5b345875cbc15c083ea63aaaae00d8892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:35 +0000
Subject: [PATCH 005/100] fix: read back that option START is not set

---
 toughio/_io/input/tough/_read.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 2ad02e1..5f85702 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -80,6 +80,7 @@ def read_buffer(f, label_length):
                 break
 
         parameters["title"] = title[0] if len(title) == 1 else title
+        parameters["start"] = False
         f.seek(i)
     else:
         f.seek(0)
-- 
2.43.0


From cc2218adc50bbaf8de22a1167dc62fa5d3c472a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:35 +0000
Subject: [PATCH 006/100] fix: read option creep of block FLAC as a boolean

---
 toughio/_io/input/tough/_read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 5f85702..61e5500 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -233,7 +233,7 @@ def _read_flac(f, rocks_order):
     # Record 1
     line = next(f)
     data = read_record(line, fmt[1])
-    flac["flac"]["creep"] = data[0]
+    flac["flac"]["creep"] = bool(data[0])
     flac["flac"]["porosity_model"] = data[1]
     flac["flac"]["version"] = data[2]
 
-- 
2.43.0


From 12441185a2fff2cc0287c0e5776afef3dea60dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:35 +0000
Subject: [PATCH 007/100] fix: handle selections without integers or without
 floats

---
 toughio/_io/input/tough/_read.py  | 2 +-
 toughio/_io/input/tough/_write.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 61e5500..f14f3ca 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -394,7 +394,7 @@ def _read_selec(f):
             selec["selections"]["floats"].append(prune_nones_list(data))
 
     selec["selections"]["integers"] = prune_nones_dict(selec["selections"]["integers"])
-    if selec["selections"]["integers"][1] == 1:
+    if selec["selections"]["integers"].get(1) == 1:
         selec["selections"]["floats"] = selec["selections"]["floats"][0]
 
     return selec
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 61d457c..c79a505 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -490,9 +490,9 @@ def _write_selec(parameters):
     from ._common import selections
 
     data = deepcopy(selections)
-    if parameters["selections"]["integers"]:
+    if parameters["selections"].get("integers"):
         data["integers"].update(parameters["selections"]["integers"])
-    if len(parameters["selections"]["floats"]):
+    if parameters["selections"].get("floats") is not None:
         data["floats"] = parameters["selections"]["floats"]
 
     # Check floats and overwrite IE(1)
-- 
2.43.0


From 6739845366cd5eb5834be9459e9f131939460688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:35 +0000
Subject: [PATCH 008/100] fix: read the number of mass components of block
 MULTI

---
 toughio/_io/input/tough/_read.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index f14f3ca..3938537 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -270,6 +270,8 @@ def _read_multi(f):
     multi["n_component"] = data[0]
     multi["isothermal"] = data[1] == data[0]
     multi["n_phase"] = data[2]
+    if data[4] is not None:
+        multi["n_component_mass"] = data[4]
 
     return multi
 
-- 
2.43.0


From 43aebce425a23ee706526de2683cf2198975f47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:35 +0000
Subject: [PATCH 009/100] fix: accept diffusion coefficients given as an array

---
 toughio/_io/input/tough/_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index c79a505..75aab53 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -351,7 +351,7 @@ def _write_multi(parameters):
     values[2] = parameters["n_phase"] if parameters["n_phase"] else values[2]
 
     # Handle diffusion
-    if parameters["diffusion"]:
+    if parameters["diffusion"] is not None and len(parameters["diffusion"]):
         values[3] = 8
         parameters["n_phase"] = values[2]  # Save for later check
 
-- 
2.43.0


From fa8f8a4aadc2d44675d8f81cadfbf27f73faac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:35 +0000
Subject: [PATCH 010/100] fix: accept any array_like as rocks_order

---
 toughio/_io/input/tough/_write.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 75aab53..eee6692 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -166,7 +166,7 @@ def _write_rocks(parameters):
     """Write ROCKS block data."""
     # Reorder rocks
     if parameters["rocks_order"] is not None:
-        order = parameters["rocks_order"]
+        order = list(parameters["rocks_order"])
         for rock in parameters["rocks"].keys():
             if rock not in order:
                 order.append(rock)
@@ -294,8 +294,8 @@ def _write_flac(parameters):
     data.update(parameters["flac"])
 
     # Reorder rocks
-    if parameters["rocks_order"]:
-        order = parameters["rocks_order"]
+    if parameters["rocks_order"] is not None:
+        order = list(parameters["rocks_order"])
         for rock in parameters["rocks"].keys():
             if rock not in order:
                 order.append(rock)
@@ -536,8 +536,8 @@ def _write_selec(parameters):
 @block("INDOM", multi=True)
 def _write_indom(parameters):
     """Write INDOM block data."""
-    if parameters["rocks_order"]:
-        order = parameters["rocks_order"]
+    if parameters["rocks_order"] is not None:
+        order = list(parameters["rocks_order"])
         for rock in parameters["rocks"].keys():
             if rock not in order:
                 order.append(rock)
-- 
2.43.0


From ad3f74cdad46481b3f87e263254dc993c2cb7992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:35 +0000
Subject: [PATCH 011/100] fix: use the right key for the default solver

---
 toughio/_io/input/tough/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_common.py b/toughio/_io/input/tough/_common.py
index 32e4ab1..14cb8d1 100644
--- a/toughio/_io/input/tough/_common.py
+++ b/toughio/_io/input/tough/_common.py
@@ -72,7 +72,7 @@ extra_options = {k + 1: None for k in range(24)}
 more_options = {k + 1: None for k in range(40)}
 
 solver = {
-    "id": 3,
+    "method": 3,
     "z_precond": "Z0",
     "o_precond": "O0",
     "rel_iter_max": 0.1,
-- 
2.43.0


From d9d9cd54568bdf98894dcc8c6b81f2cb497a1c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:35 +0000
Subject: [PATCH 012/100] fix: keep specific enthalpies of multicomponent
 generators

---
 toughio/_io/input/tough/_read.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 3938537..5411591 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -513,6 +513,7 @@ def _read_gener(f, label_length):
                 "nadd": [data[3]],
                 "nads": [data[4]],
                 "type": [data[7]],
+                "specific_enthalpy": [None],
                 "layer_thickness": [data[11]],
             }
 
-- 
2.43.0


From 16be32a91c89406c9c9c8d0e238682f21d407c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:35 +0000
Subject: [PATCH 013/100] fix: read elements without material

---
 toughio/_io/input/tough/_read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 5411591..c4645c1 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -647,11 +647,11 @@ def _read_eleme(f, label_length):
         if line.strip():
             data = read_record(line, fmt[label_length])
             label = data[0]
-            rock = data[3].strip()
+            rock = data[3].strip() if data[3] else ""
             eleme["elements"][label] = {
                 "nseq": data[1],
                 "nadd": data[2],
-                "material": int(rock) if all(r.isdigit() for r in rock) else rock,
+                "material": int(rock) if rock.isdigit() else rock,
                 "volume": data[4],
                 "heat_exchange_area": data[5],
                 "permeability_modifier": data[6],
-- 
2.43.0


From 597405cf1f6d9d2f02e948237a4e86632765c809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:35 +0000
Subject: [PATCH 014/100] fix: write elements and connections with unset
 center, distances or integer material

---
 toughio/_io/input/tough/_write.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index eee6692..fa90afa 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -848,9 +848,10 @@ def _write_eleme(parameters):
         data = deepcopy(elements)
         data.update(parameters["elements"][k])
 
+        center = data["center"] if data["center"] is not None else [None] * 3
         material = (
             "{:>5}".format(data["material"])
-            if isinstance(data["material"], int)
+            if isinstance(data["material"], (int, numpy.integer))
             else data["material"]
         )
         values = [
@@ -861,9 +862,9 @@ def _write_eleme(parameters):
             data["volume"],
             data["heat_exchange_area"],
             data["permeability_modifier"],
-            data["center"][0],
-            data["center"][1],
-            data["center"][2],
+            center[0],
+            center[1],
+            center[2],
         ]
         out += write_record(values, fmt)
 
@@ -913,14 +914,16 @@ def _write_conne(parameters):
         data = deepcopy(connections)
         data.update(parameters["connections"][k])
 
+        distances = data["nodal_distances"]
+        distances = distances if distances is not None else [None] * 2
         values = [
             k,
             data["nseq"],
             data["nadd"][0] if data["nadd"] is not None else None,
             data["nadd"][1] if data["nadd"] is not None else None,
             data["permeability_direction"],
-            data["nodal_distances"][0],
-            data["nodal_distances"][1],
+            distances[0],
+            distances[1],
             data["interface_area"],
             data["gravity_cosine_angle"],
             data["radiant_emittance_factor"],
-- 
2.43.0


From 461cefb51e1c3950ab3177718d0cad4d8015b65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:35 +0000
Subject: [PATCH 015/100] fix: do not let long numbers spill into the next
 field of a record

---
 toughio/_io/input/tough/_helpers.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/input/tough/_helpers.py b/toughio/_io/input/tough/_helpers.py
index fca829e..9cb2caf 100644
--- a/toughio/_io/input/tough/_helpers.py
+++ b/toughio/_io/input/tough/_helpers.py
@@ -259,11 +259,18 @@ def write_record(data, fmt, multi=False):
 
     def to_str(x, fmt):
         x = "" if x is None else x
-        return (
-            fmt.format(x)
-            if not isinstance(x, str)
-            else fmt.replace("g", "").replace("e", "").format(x)
-        )
+        if isinstance(x, str):
+            return fmt.replace("g", "").replace("e", "").format(x)
+
+        out = fmt.format(x)
+        if fmt.endswith("e}"):
+            # Drop decimals if the number is too long for its field
+            width, precision = [int(n) for n in fmt[3:-2].split(".")]
+            while len(out) > width and precision > 0:
+                precision -= 1
+                out = "{:>{}.{}e}".format(x, width, precision)
+
+        return out
 
     if not multi:
         data = [to_str(d, f) for d, f in zip(data, fmt)]
-- 
2.43.0


From 2041a2d1c41db0cd8b0b9d666e07bb7e3663f8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:40 +0000
Subject: [PATCH 016/100] fix: do not truncate long labels in blocks FOFT, COFT
 and GOFT

---
 toughio/_common.py                | 6 +++---
 toughio/_io/input/tough/_write.py | 9 ++++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/toughio/_common.py b/toughio/_common.py
index a58d8e6..bcbacac 100644
--- a/toughio/_common.py
+++ b/toughio/_common.py
@@ -24,9 +24,9 @@ block_to_format = {
     "INDOM": {0: ",".join(4 * ["20.13e"]), 5: "5s"},
     "MOMOP": "40S",
     "TIMES": {1: "5d,5d,10.4e,10.4e", 2: ",".join(8 * ["10.4e"])},
-    "FOFT": {5: "5s"},
-    "COFT": {5: "10s"},
-    "GOFT": {5: "5s"},
+    "FOFT": {5: "5s", 6: "6s", 7: "7s", 8: "8s", 9: "9s"},
+    "COFT": {5: "10s", 6: "12s", 7: "14s", 8: "16s", 9: "18s"},
+    "GOFT": {5: "5s", 6: "6s", 7: "7s", 8: "8s", 9: "9s"},
     "GENER": {
         0: ",".join(4 * ["14.7e"]),
         5: "5s,5s,5d,5d,5d,5d,5s,4s,1d,10.3e,10.3e,10.3e",
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index fa90afa..c7f3965 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -615,9 +615,10 @@ def _write_foft(parameters):
     """Write FOFT block data."""
     # Formats
     fmt = block_to_format["FOFT"]
-    fmt = str2format(fmt[5])
 
     values = [x for x in parameters["element_history"]]
+    label_length = min(9, max([5] + [len(x) for x in values]))
+    fmt = str2format(fmt[label_length])
     out = write_record(values, fmt, multi=True)
 
     return out
@@ -628,9 +629,10 @@ def _write_coft(parameters):
     """Write COFT block data."""
     # Format
     fmt = block_to_format["COFT"]
-    fmt = str2format(fmt[5])
 
     values = [x for x in parameters["connection_history"]]
+    label_length = min(9, max([5] + [(len(x) + 1) // 2 for x in values]))
+    fmt = str2format(fmt[label_length])
     out = write_record(values, fmt, multi=True)
 
     return out
@@ -641,9 +643,10 @@ def _write_goft(parameters):
     """Write GOFT block data."""
     # Format
     fmt = block_to_format["GOFT"]
-    fmt = str2format(fmt[5])
 
     values = [x for x in parameters["generator_history"]]
+    label_length = min(9, max([5] + [len(x) for x in values]))
+    fmt = str2format(fmt[label_length])
     out = write_record(values, fmt, multi=True)
 
     return out
-- 
2.43.0


From 0a699086dab68d72b9fc72140ab1c5e143be81d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:19 +0000
Subject: [PATCH 017/100] fix: write any NumPy scalar to JSON input files

---
 toughio/_io/input/json/_json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/json/_json.py b/toughio/_io/input/json/_json.py
index 46d7cc1..314d350 100644
--- a/toughio/_io/input/json/_json.py
+++ b/toughio/_io/input/json/_json.py
@@ -63,8 +63,8 @@ def write(filename, parameters):
 
     def jsonify(x):
         """JSON serialize data."""
-        if isinstance(x, (numpy.int32, numpy.int64)):
-            return int(x)
+        if isinstance(x, numpy.generic):
+            return x.item()
         elif isinstance(x, (list, tuple)):
             return [jsonify(xx) for xx in x]
         elif isinstance(x, numpy.ndarray):
-- 
2.43.0


From b7ecad739630cdfcfbd430e707c30a6e4da08b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:19 +0000
Subject: [PATCH 018/100] fix: read JSON input files with selections without
 integers

---
 toughio/_io/input/json/_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/json/_json.py b/toughio/_io/input/json/_json.py
index 314d350..2326f4e 100644
--- a/toughio/_io/input/json/_json.py
+++ b/toughio/_io/input/json/_json.py
@@ -39,7 +39,7 @@ def read(filename):
     if "more_options" in parameters.keys():
         parameters["more_options"] = to_int(parameters["more_options"])
 
-    if "selections" in parameters.keys():
+    if "integers" in parameters.get("selections", {}).keys():
         parameters["selections"]["integers"] = to_int(
             parameters["selections"]["integers"]
         )
-- 
2.43.0


From b1015feded9c95144c962a09415dbb9b68e46d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:19 +0000
Subject: [PATCH 019/100] fix: do not truncate an existing file when JSON
 serialization fails

---
 toughio/_io/input/json/_json.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/json/_json.py b/toughio/_io/input/json/_json.py
index 2326f4e..0cf8f57 100644
--- a/toughio/_io/input/json/_json.py
+++ b/toughio/_io/input/json/_json.py
@@ -74,7 +74,8 @@ def write(filename, parameters):
         else:
             return x
 
+    parameters = deepcopy(parameters)
+    parameters = jsonify(parameters)
+    buffer = json.dumps(parameters, indent=4)
     with open(filename, "w") as f:
-        parameters = deepcopy(parameters)
-        parameters = jsonify(parameters)
-        json.dump(parameters, f, indent=4)
+        f.write(buffer)
-- 
2.43.0


From 09ef96c86bc42cb20235675dfa79aeecb39b50f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:58 +0000
Subject: [PATCH 020/100] fix: read any Fortran number notation (exponents D or
 without letter)

---
 toughio/_io/input/tough/_helpers.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/tough/_helpers.py b/toughio/_io/input/tough/_helpers.py
index 9cb2caf..2e841c5 100644
--- a/toughio/_io/input/tough/_helpers.py
+++ b/toughio/_io/input/tough/_helpers.py
@@ -1,11 +1,16 @@
 from __future__ import division
 
 import logging
+import re
 from copy import deepcopy
 from functools import wraps
 
 import numpy
 
+_fortran_float = re.compile(
+    r"\s*([+-]?(?:\d+\.?\d*|\.\d+))(?:[dD]|(?=[+-]))([+-]?\d+)\s*$"
+)
+
 dtypes = {
     "PARAMETERS": {
         "title": "str_array_like",
@@ -296,9 +301,11 @@ def str2float(s):
     try:
         return float(s)
     except ValueError:
-        # It's probably something like "0.0001-001"
-        significand, exponent = s[:-4], s[-4:]
-        return float("{}e{}".format(significand, exponent))
+        # It's probably something like "0.0001-001", "1.5-3" or "1.5D-03"
+        match = _fortran_float.match(s)
+        if match is None:
+            raise
+        return float("{}e{}".format(*match.groups()))
 
 
 def prune_nones_dict(data):
-- 
2.43.0


From a142d6223267b9ca1868a8d2129064071647327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:45 +0000
Subject: [PATCH 021/100] fix: write output variables whose options differ in
 number

---
 toughio/_io/input/tough/_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index c7f3965..2b1c3ec 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -808,7 +808,7 @@ def _write_outpu(parameters):
         for k, v in data["variables"].items():
             values = [k.upper()]
 
-            if numpy.ndim(v) == 0:
+            if not isinstance(v, (list, tuple, numpy.ndarray)):
                 values += [v]
                 buffer += write_record(values, fmt3)
                 num_vars += 1
-- 
2.43.0


From 9ac3ebf916cf0f449e10ea4d13d70b95f533889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:58 +0000
Subject: [PATCH 022/100] fix: do not skip a record after a rock with NAD = 0

---
 toughio/_io/input/tough/_read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index c4645c1..11595f7 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -180,7 +180,7 @@ def _read_rocks(f):
             }
 
             nad = data[1]
-            if nad is not None:
+            if nad and nad > 0:
                 # Record 2
                 line = next(f)
                 data = read_record(line, fmt[2])
-- 
2.43.0


From 64986d262662b347234632e31ae9c5363c50aef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:58 +0000
Subject: [PATCH 023/100] fix: do not read tables after generators of type DELV

---
 toughio/_io/input/tough/_read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 11595f7..57caf53 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -518,7 +518,7 @@ def _read_gener(f, label_length):
             }
 
             ltab = data[5]
-            if ltab and ltab > 1:
+            if ltab and ltab > 1 and data[7] != "DELV":
                 itab = data[8]
                 keys = ["times", "rates"]
                 keys += ["specific_enthalpy"] if itab else []
-- 
2.43.0


From 0b60ad9abefd2d291335633992297489ba612368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:58 +0000
Subject: [PATCH 024/100] fix: read enthalpy tables of generators whatever the
 character given for ITAB

---
 toughio/_common.py                | 10 +++++-----
 toughio/_io/input/tough/_write.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/toughio/_common.py b/toughio/_common.py
index bcbacac..1ba930a 100644
--- a/toughio/_common.py
+++ b/toughio/_common.py
@@ -29,11 +29,11 @@ block_to_format = {
     "GOFT": {5: "5s", 6: "6s", 7: "7s", 8: "8s", 9: "9s"},
     "GENER": {
         0: ",".join(4 * ["14.7e"]),
-        5: "5s,5s,5d,5d,5d,5d,5s,4s,1d,10.3e,10.3e,10.3e",
-        6: "6s,5s,6d,4d,4d,5d,5s,4s,1d,10.3e,10.3e,10.3e",
-        7: "7s,5s,5d,4d,4d,5d,5s,4s,1d,10.3e,10.3e,10.3e",
-        8: "8s,5s,4d,4d,4d,5d,5s,4s,1d,10.3e,10.3e,10.3e",
-        9: "9s,5s,5d,3d,3d,5d,5s,4s,1d,10.3e,10.3e,10.3e",
+        5: "5s,5s,5d,5d,5d,5d,5s,4s,1s,10.3e,10.3e,10.3e",
+        6: "6s,5s,6d,4d,4d,5d,5s,4s,1s,10.3e,10.3e,10.3e",
+        7: "7s,5s,5d,4d,4d,5d,5s,4s,1s,10.3e,10.3e,10.3e",
+        8: "8s,5s,4d,4d,4d,5d,5s,4s,1s,10.3e,10.3e,10.3e",
+        9: "9s,5s,5d,3d,3d,5d,5s,4s,1s,10.3e,10.3e,10.3e",
     },
     "DIFFU": ",".join(8 * ["10.3e"]),
     "OUTPU": {1: "20s", 2: "15s", 3: "20s,5d,5d"},
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 2b1c3ec..5e09469 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -726,7 +726,7 @@ def _write_gener(parameters):
                     raise ValueError()
 
         itab = (
-            1
+            "1"
             if isinstance(v["specific_enthalpy"], (list, tuple, numpy.ndarray))
             else None
         )
-- 
2.43.0


From 8be423c8f308cacfdd207500eadd6f6d92788478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:40 +0000
Subject: [PATCH 025/100] fix: reject parameters default and rocks of wrong
 type with a TypeError

---
 toughio/_io/input/tough/_write.py | 43 +++++++++++++++++--------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 5e09469..c0cdbce 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -32,7 +32,7 @@ def write(filename, parameters, block="all"):
          - 'incon': only write block INCON.
 
     """
-    from ._common import Parameters, default
+    from ._common import Parameters
 
     if block not in {"all", "gener", "mesh", "incon"}:
         raise ValueError()
@@ -40,25 +40,6 @@ def write(filename, parameters, block="all"):
     params = deepcopy(Parameters)
     params.update(deepcopy(parameters))
 
-    params["title"] = (
-        [params["title"]] if isinstance(params["title"], str) else params["title"]
-    )
-
-    for k, v in default.items():
-        if k not in params["default"].keys():
-            params["default"][k] = v
-
-    for rock in params["rocks"].keys():
-        for k, v in params["default"].items():
-            cond1 = k not in params["rocks"][rock].keys()
-            cond2 = k not in {
-                "initial_condition",
-                "relative_permeability",
-                "capillarity",
-            }
-            if cond1 and cond2:
-                params["rocks"][rock][k] = v
-
     buffer = write_buffer(params, block)
     with open(filename, "w") as f:
         for record in buffer:
@@ -70,6 +51,28 @@ def write_buffer(parameters, block):
     """Write TOUGH input file as a list of 80-character long record strings."""
     from ._common import eos
 
+    # Set default values
+    parameters["title"] = (
+        [parameters["title"]]
+        if isinstance(parameters["title"], str)
+        else parameters["title"]
+    )
+
+    for k, v in default.items():
+        if k not in parameters["default"].keys():
+            parameters["default"][k] = v
+
+    for rock in parameters["rocks"].keys():
+        for k, v in parameters["default"].items():
+            cond1 = k not in parameters["rocks"][rock].keys()
+            cond2 = k not in {
+                "initial_condition",
+                "relative_permeability",
+                "capillarity",
+            }
+            if cond1 and cond2:
+                parameters["rocks"][rock][k] = v
+
     # Check that EOS is defined (for block MULTI)
     if parameters["eos"] and parameters["eos"] not in eos.keys():
         raise ValueError(
-- 
2.43.0


From 6e2d18cb4a8bc9dd90dfd100e7e26a6e648e4031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:15 +0000
Subject: [PATCH 026/100] fix: check default rock parameters before they are
 used

---
 toughio/_io/input/tough/_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index c0cdbce..bb487f5 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -47,6 +47,7 @@ def write(filename, parameters, block="all"):
 
 
 @check_parameters(dtypes["PARAMETERS"])
+@check_parameters(dtypes["ROCKS"], keys="default")
 def write_buffer(parameters, block):
     """Write TOUGH input file as a list of 80-character long record strings."""
     from ._common import eos
@@ -158,7 +159,6 @@ def write_buffer(parameters, block):
     return out
 
 
-@check_parameters(dtypes["ROCKS"], keys="default")
 @check_parameters(dtypes["ROCKS"], keys="rocks", is_list=True)
 @check_parameters(
     dtypes["MODEL"], keys=("rocks", "relative_permeability"), is_list=True
-- 
2.43.0


From 1fc5f1b7796a64ab55418b4aec35c6449fd12f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:15 +0000
Subject: [PATCH 027/100] fix: ignore unknown keys of extra options, more
 options and selections

---
 toughio/_io/input/tough/_write.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index bb487f5..f060ad5 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -429,7 +429,7 @@ def _write_param(parameters):
     # Record 1
     _mop = deepcopy(extra_options)
     _mop.update(parameters["extra_options"])
-    mop = [" " if _mop[k] is None else str(_mop[k]) for k in sorted(_mop.keys())]
+    mop = [" " if _mop[k] is None else str(_mop[k]) for k in sorted(extra_options.keys())]
 
     values = [
         data["n_iteration"],
@@ -523,7 +523,7 @@ def _write_selec(parameters):
     fmt2 = str2format(fmt[2])
 
     # Record 1
-    values = [data["integers"][k] for k in sorted(data["integers"].keys())]
+    values = [data["integers"][k] for k in sorted(selections["integers"].keys())]
     out = write_record(values, fmt1)
 
     # Record 2
@@ -587,7 +587,7 @@ def _write_momop(parameters):
     _momop = deepcopy(more_options)
     _momop.update(parameters["more_options"])
 
-    tmp = [" " if _momop[k] is None else str(_momop[k]) for k in sorted(_momop.keys())]
+    tmp = [" " if _momop[k] is None else str(_momop[k]) for k in sorted(more_options.keys())]
     out = write_record(["".join(tmp)], fmt)
 
     return out
-- 
2.43.0


From cbbcaf21e4d7a81d13ddad8092bca85e7ce6e3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:44 +0000
Subject: [PATCH 028/100] fix: reject initial_condition of wrong type with a
 TypeError

---
 toughio/_io/input/tough/_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index f060ad5..ebf4eb9 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -48,6 +48,7 @@ def write(filename, parameters, block="all"):
 
 @check_parameters(dtypes["PARAMETERS"])
 @check_parameters(dtypes["ROCKS"], keys="default")
+@check_parameters(dtypes["ROCKS"], keys="rocks", is_list=True)
 def write_buffer(parameters, block):
     """Write TOUGH input file as a list of 80-character long record strings."""
     from ._common import eos
@@ -159,7 +160,6 @@ def write_buffer(parameters, block):
     return out
 
 
-@check_parameters(dtypes["ROCKS"], keys="rocks", is_list=True)
 @check_parameters(
     dtypes["MODEL"], keys=("rocks", "relative_permeability"), is_list=True
 )
-- 
2.43.0


From ca4c33b08f524851f8054004c84b73c84025c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:19 +0000
Subject: [PATCH 029/100] fix: rename and move materials with names shorter
 than five characters

---
 toughio/_mesh/tough/_tough.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/tough/_tough.py b/toughio/_mesh/tough/_tough.py
index 4fc41ad..517a573 100644
--- a/toughio/_mesh/tough/_tough.py
+++ b/toughio/_mesh/tough/_tough.py
@@ -177,12 +177,19 @@ def write_mesh(
     """Write MESH file."""
     # Check materials
     materials = [
-        "{:5}".format(material.strip()) if isinstance(material, str) else material
+        material.strip() if isinstance(material, str) else material
         for material in materials
     ]
     material_name = material_name if material_name else {}
+    material_name = {
+        k.strip() if isinstance(k, str) else k: v for k, v in material_name.items()
+    }
     material_end = material_end if material_end else []
     material_end = [material_end] if isinstance(material_end, str) else material_end
+    material_end = [
+        material.strip() if isinstance(material, str) else material
+        for material in material_end
+    ]
 
     with open(filename, "w") as f:
         _write_eleme(
-- 
2.43.0


From 22a03d598585112db6aa98688bc29c2a49e82e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:19 +0000
Subject: [PATCH 030/100] fix: write MESH of meshes without connections

---
 toughio/_mesh/tough/_tough.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toughio/_mesh/tough/_tough.py b/toughio/_mesh/tough/_tough.py
index 517a573..f3533ea 100644
--- a/toughio/_mesh/tough/_tough.py
+++ b/toughio/_mesh/tough/_tough.py
@@ -346,6 +346,9 @@ def _write_conne(
             )
         cell_list.add(i)
 
+    if not clabels:
+        return
+
     centers = numpy.array(centers)
     int_points = numpy.array(int_points)
     int_normals = numpy.array(int_normals)
-- 
2.43.0


From aa967ff19b95c3524bf87f488542455947292ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:21 +0000
Subject: [PATCH 031/100] fix: do not let rounding errors of cell centers
 decide the permeability direction

---
 toughio/_mesh/tough/_tough.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/tough/_tough.py b/toughio/_mesh/tough/_tough.py
index f3533ea..1bca87d 100644
--- a/toughio/_mesh/tough/_tough.py
+++ b/toughio/_mesh/tough/_tough.py
@@ -445,7 +445,8 @@ def _isot(lines):
     It always returns 1 if the connection line is not colinear with X, Y or Z.
 
     """
-    mask = lines != 0.0
+    # Cell centers are only known up to rounding errors
+    mask = numpy.abs(lines) > 1.0e-6 * numpy.linalg.norm(lines, axis=1)[:, None]
     return numpy.where(mask.sum(axis=1) == 1, mask.argmax(axis=1) + 1, 1)
 
 
-- 
2.43.0


From c7f87396439d24b6c39a5c6e8bc163be7b55cbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:30 +0000
Subject: [PATCH 032/100] fix: write negative initial conditions to INCON

---
 toughio/_mesh/tough/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/tough/_helpers.py b/toughio/_mesh/tough/_helpers.py
index 8092ce1..9af9a41 100644
--- a/toughio/_mesh/tough/_helpers.py
+++ b/toughio/_mesh/tough/_helpers.py
@@ -90,7 +90,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
 
     iterables = zip(labels, values, porosity, userx)
     for label, value, phi, usrx in iterables:
-        cond1 = any(v > -1.0e-9 for v in value)
+        cond1 = any(v > -1.0e9 for v in value)
         cond2 = phi is not None
         cond3 = usrx is not None
         if cond1 or cond2 or cond3:
-- 
2.43.0


From 238f95a80a5e6b5a5c803f142722181c8e9222be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:28 +0000
Subject: [PATCH 033/100] fix: count nodes of cells at the right place in
 from_pyvista

---
 toughio/_mesh/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index c009903..f9ec4c8 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -953,7 +953,7 @@ def from_pyvista(mesh, material="dfalt"):
     cells = []
     c = 0
     for offset, cell_type in zip(vtk_offset, vtk_cell_type):
-        numnodes = vtk_cells[offset]
+        numnodes = vtk_cells[offset + c]
         if VTK9:
             cell = vtk_cells[offset + 1 + c : offset + 1 + c + numnodes]
             c += 1
-- 
2.43.0


From aa861b13aaf6f777e2301780e7d626fad9bc8509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:28 +0000
Subject: [PATCH 034/100] fix: do not give a new material the id of another
 material

---
 toughio/_mesh/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index f9ec4c8..ddb5237 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -579,7 +579,7 @@ class Mesh(object):
             imat = (
                 self.field_data[material][0]
                 if material in self.field_data.keys()
-                else data.max() + 1
+                else max([data.max()] + [v[0] for v in self.field_data.values()]) + 1
             )
             data[cells] = imat
             self.add_cell_data("material", data)
-- 
2.43.0


From ce2e9c921330cb7c1fabdedcd4b358652a28b6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:28 +0000
Subject: [PATCH 035/100] fix: do not modify arrays shared with other meshes in
 set_material

---
 toughio/_mesh/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index ddb5237..1f4ffd4 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -575,7 +575,7 @@ class Mesh(object):
             raise TypeError()
 
         if len(cells):
-            data = self.cell_data["material"]
+            data = numpy.array(self.cell_data["material"])
             imat = (
                 self.field_data[material][0]
                 if material in self.field_data.keys()
-- 
2.43.0


From 7f4415bdaaaf23a0160ff220d63889bbc4ac4ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 036/100] fix: accept any array_like as cells in set_material

---
 toughio/_mesh/_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 1f4ffd4..fdd1929 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -570,7 +570,7 @@ class Mesh(object):
         elif cond_bool:
             if len(cells) != self.n_cells:
                 raise ValueError()
-            cells = numpy.arange(self.n_cells)[cells]
+            cells = numpy.arange(self.n_cells)[numpy.asarray(cells)]
         else:
             raise TypeError()
 
@@ -581,7 +581,7 @@ class Mesh(object):
                 if material in self.field_data.keys()
                 else max([data.max()] + [v[0] for v in self.field_data.values()]) + 1
             )
-            data[cells] = imat
+            data[numpy.asarray(cells)] = imat
             self.add_cell_data("material", data)
             self.field_data[material] = numpy.array([imat, 3])
 
-- 
2.43.0


From 3e40c70af12194e071fa2937b6706d4d7876689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 037/100] fix: interpolate vector data component by component

---
 toughio/_mesh/_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_common.py b/toughio/_mesh/_common.py
index 349ca89..be9ea1b 100644
--- a/toughio/_mesh/_common.py
+++ b/toughio/_mesh/_common.py
@@ -226,10 +226,10 @@ def interpolate_data(data, entities, weights=None):
     """Interpolate input data."""
     return {
         k: (
-            numpy.array([numpy.mean(v[e]) for e in entities])
+            numpy.array([numpy.mean(v[e], axis=0) for e in entities])
             if not weights
             else numpy.array(
-                [numpy.average(v[e], weights=w) for e, w in zip(entities, weights)]
+                [numpy.average(v[e], axis=0, weights=w) for e, w in zip(entities, weights)]
             )
         )
         for k, v in data.items()
-- 
2.43.0


From a61853af55b6e5d6f8ef645ef78088f7a94cfd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 038/100] fix: drop data of cells that are not extruded

---
 toughio/_mesh/_mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index fdd1929..053e535 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -162,6 +162,9 @@ class Mesh(object):
                         if numpy.ndim(v[ic]) == 1
                         else numpy.tile(v[ic], (nh, 1))
                     )
+            else:
+                for v in cell_data.values():
+                    v[ic] = v[ic][:0]
 
         mesh.cells = cells
         mesh.cell_data = {k: numpy.concatenate(v) for k, v in cell_data.items()}
-- 
2.43.0


From 3c02bde63e90ad475f259e47a32c34e12d0f9166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 039/100] fix: do not modify field data shared with other
 meshes in extrude_to_3d

---
 toughio/_mesh/_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 053e535..7b45f40 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -170,8 +170,8 @@ class Mesh(object):
         mesh.cell_data = {k: numpy.concatenate(v) for k, v in cell_data.items()}
 
         if mesh.field_data:
-            for k in mesh.field_data.keys():
-                mesh.field_data[k][1] = 3
+            for k, v in mesh.field_data.items():
+                mesh.field_data[k] = numpy.array([v[0], 3])
 
         if not inplace:
             return mesh
-- 
2.43.0


From 58f3b49b494ceede68e834b28aa91312a29a5019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 040/100] fix: keep the order of cells in prune_duplicates

---
 toughio/_mesh/_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 7b45f40..4d3c975 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -217,6 +217,7 @@ class Mesh(object):
         for ic, (k, v) in enumerate(cells):
             vsort = numpy.sort(v, axis=1)
             _, order = numpy.unique(vsort, axis=0, return_index=True)
+            order = numpy.sort(order)
             cells[ic][1] = v[order]
             for kk, vv in cell_data.items():
                 cell_data[kk][ic] = vv[ic][order]
-- 
2.43.0


From 266410520058a6757f6d20e1e1e691c165fef2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 041/100] fix: leave the input mesh unchanged in from_meshio

---
 toughio/_mesh/_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 4d3c975..0ac46f9 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -868,7 +868,7 @@ def from_meshio(mesh, material="dfalt"):
     if mesh.cell_data:
         if version[0] >= 4:
             cells = mesh.cells
-            cell_data = mesh.cell_data
+            cell_data = dict(mesh.cell_data)
         else:
             cells, cell_data = get_new_meshio_cells(mesh.cells, mesh.cell_data)
 
@@ -883,9 +883,9 @@ def from_meshio(mesh, material="dfalt"):
     out = Mesh(
         points=mesh.points,
         cells=cells,
-        point_data=mesh.point_data,
+        point_data=dict(mesh.point_data),
         cell_data=cell_data,
-        field_data=mesh.field_data,
+        field_data=dict(mesh.field_data),
         point_sets=(
             mesh.point_sets
             if hasattr(mesh, "point_sets")
-- 
2.43.0


From 2aab606b05e6494349527e9347336cdb24eed84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 042/100] fix: do not take a list of booleans for indices in
 set_material

---
 toughio/_mesh/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 0ac46f9..0296cf0 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -565,8 +565,8 @@ class Mesh(object):
 
         """
         ints = (int, numpy.int8, numpy.int16, numpy.int32, numpy.int64)
-        cond_int = all(isinstance(c, ints) for c in cells)
         cond_bool = all(isinstance(c, (bool, numpy.bool_)) for c in cells)
+        cond_int = not cond_bool and all(isinstance(c, ints) for c in cells)
 
         if cond_int:
             if numpy.min(cells) < 0 or numpy.max(cells) >= self.n_cells:
-- 
2.43.0


From 3d0dd83f4ae8f8bc850004ed05db152e6b62ea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:13 +0000
Subject: [PATCH 043/100] fix: read consecutive FGROUP of FLAC3D grid files

---
 toughio/_mesh/flac3d/_flac3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 439ae99..fbd0e1b 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -266,7 +266,7 @@ def _read_group(buf_or_line, binary, line=None):
         line = buf_or_line.readline()
         while True:
             line = line.rstrip().split()
-            if line and (line[0] not in {"*", "ZGROUP"}):
+            if line and (line[0] not in {"*", "ZGROUP", "FGROUP"}):
                 data += [int(l) for l in line]
             else:
                 buf_or_line.seek(i)
-- 
2.43.0


From b9e41004c160b9182adfdfbd587ab8bc2eeb270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:13 +0000
Subject: [PATCH 044/100] fix: read FLAC3D group names with spaces

---
 toughio/_mesh/flac3d/_flac3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index fbd0e1b..3e06db5 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -258,7 +258,8 @@ def _read_group(buf_or_line, binary, line=None):
         (num_zones,) = struct.unpack("<I", buf_or_line.read(4))
         data = struct.unpack("<{}I".format(num_zones), buf_or_line.read(4 * num_zones))
     else:
-        name = line[1].replace('"', "")
+        # Quoted names may contain spaces
+        name = " ".join(line).split('"')[1] if '"' in line[1] else line[1]
         data = []
         slot = "" if "SLOT" not in line else line[-1]
 
-- 
2.43.0


From 4095d01f01e220992cf2b00191042b03bac34ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:13 +0000
Subject: [PATCH 045/100] fix: number cells of FLAC3D groups as in the file

---
 toughio/_mesh/flac3d/_flac3d.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 3e06db5..7ddd3dc 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -487,15 +487,20 @@ def _translate_faces(cells):
 
 def _translate_groups(cells, cell_data, field_data, flag):
     """Convert toughio cell_data to FLAC3D groups."""
-    num_dims = numpy.concatenate(
-        [numpy.full(len(c[1]), 2 if c[0] in meshio_only["face"] else 3) for c in cells]
-    )
+    # Zones are numbered first, followed by faces (see _write_cells)
+    sections = numpy.cumsum([len(c[1]) for c in cells])[:-1]
+    cell_data = numpy.split(cell_data, sections)
+    data = {
+        k: numpy.concatenate(
+            [d for c, d in zip(cells, cell_data) if c[0] in meshio_only[k]]
+            or [numpy.array([], dtype=int)]
+        )
+        for k in ["zone", "face"]
+    }
+    count = 0 if flag == "zone" else len(data["zone"])
     groups = {
-        k: numpy.nonzero(
-            numpy.logical_and(cell_data == k, num_dims == flag_to_numdim[flag])
-        )[0]
-        + 1
-        for k in numpy.unique(cell_data)
+        k: numpy.nonzero(data[flag] == k)[0] + count + 1
+        for k in numpy.unique(data[flag])
     }
     groups = {k: v for k, v in groups.items() if v.size}
 
-- 
2.43.0


From 3df6df39e3b907dfc55de5cca5729035082579cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:14 +0000
Subject: [PATCH 046/100] fix: do not take signed data for a continued ZONE
 record in Tecplot reader

---
 toughio/_mesh/tecplot/_tecplot.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 17d020e..c02a34b 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -110,7 +110,7 @@ def read_buffer(f):
             i = f.tell()
             line = f.readline().strip().upper()
             while True:
-                if line and not line[0].isdigit():
+                if line and not _is_number(line.split()[0]):
                     lines += [line]
                     i = f.tell()
                     line = f.readline().strip().upper()
@@ -166,6 +166,14 @@ def read_buffer(f):
     return Mesh(points, cells, point_data, cell_data)
 
 
+def _is_number(value):
+    try:
+        float(value)
+        return True
+    except ValueError:
+        return False
+
+
 def _read_variables(line):
     # Gather variables in a list
     line = line.split("=")[1]
-- 
2.43.0


From a6ca7c3a47839352cbd42bb990ee4230c769fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:14 +0000
Subject: [PATCH 047/100] fix: write a brick zone when 2D cells are skipped in
 Tecplot writer

---
 toughio/_mesh/tecplot/_tecplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index c02a34b..0f7814e 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -364,6 +364,7 @@ def write(filename, mesh):
         if len(numpy.unique(num_dims)) == 2:
             logging.warning("Mesh contains 2D and 3D cells. Skipping 2D cells.")
             cell_blocks = [ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == 3]
+            num_dims = [3]
 
         # Convert 2D cells to quads / 3D cells to hexahedra
         zone_type = "FEQUADRILATERAL" if num_dims[0] == 2 else "FEBRICK"
-- 
2.43.0


From 4454f7e5f29ebf7f21462aee021bb407cab79e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:14 +0000
Subject: [PATCH 048/100] fix: read point and cell data of the same name in
 Tecplot reader

---
 toughio/_mesh/tecplot/_tecplot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 0f7814e..b4a4c85 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -146,14 +146,14 @@ def read_buffer(f):
         if zone_format == "FEBLOCK"
         else numpy.transpose(data)
     )
-    data = {k: v for k, v in zip(variables, data)}
 
+    # Point and cell variables may have the same name
     point_data, cell_data = {}, {}
-    for i, variable in zip(is_cell_centered, variables):
+    for i, variable, values in zip(is_cell_centered, variables, data):
         if i:
-            cell_data[variable] = [data[variable]]
+            cell_data[variable] = [values]
         else:
-            point_data[variable] = data[variable]
+            point_data[variable] = values
 
     x = "X" if "X" in point_data.keys() else "x"
     y = "Y" if "Y" in point_data.keys() else "y"
-- 
2.43.0


From 79d99e30cb3f4148bd5811ff738b67445758d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:43 +0000
Subject: [PATCH 049/100] fix: read Tecplot variable names with more than two
 words

---
 toughio/_mesh/tecplot/_tecplot.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index b4a4c85..8138d15 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -1,4 +1,5 @@
 import logging
+import re
 
 import numpy
 
@@ -176,20 +177,13 @@ def _is_number(value):
 
 def _read_variables(line):
     # Gather variables in a list
-    line = line.split("=")[1]
-    line = [x for x in line.replace(",", " ").split()]
-    variables = []
+    line = line.split("=", 1)[1]
 
-    i = 0
-    while i < len(line):
-        if '"' in line[i] and not (line[i].startswith('"') and line[i].endswith('"')):
-            var = "{}_{}".format(line[i], line[i + 1])
-            i += 1
-        else:
-            var = line[i]
-
-        variables.append(var.replace('"', ""))
-        i += 1
+    # Names in quotes may contain spaces
+    variables = [
+        quoted.replace(" ", "_") if quoted else name
+        for quoted, name in re.findall(r'"([^"]*)"|([^\s,"]+)', line)
+    ]
 
     # Check that at least X and Y are defined
     if "X" not in variables and "x" not in variables:
-- 
2.43.0


From 249b943438b0c4d009f30236c8c61d6d58316df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:43 +0000
Subject: [PATCH 050/100] fix: write booleans as numbers in Tecplot writer

---
 toughio/_mesh/tecplot/_tecplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 8138d15..01d938b 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -445,6 +445,7 @@ def write(filename, mesh):
 
 
 def _write_table(f, data, ncol=20):
+    data = data.astype(int) if data.dtype == bool else data
     nrow = len(data) // ncol
     lines = numpy.split(data, numpy.full(nrow, ncol).cumsum())
     for line in lines:
-- 
2.43.0


From c58d17234eb3427f9500a97015d3cde9eb5eb6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 051/100] fix: keep the order of steps of equal time in
 write_time_series

---
 toughio/_mesh/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_helpers.py b/toughio/_mesh/_helpers.py
index 2a84742..221e648 100644
--- a/toughio/_mesh/_helpers.py
+++ b/toughio/_mesh/_helpers.py
@@ -277,7 +277,7 @@ def write_time_series(
     ]
 
     # Sort data with time steps
-    idx = numpy.argsort(time_steps)
+    idx = numpy.argsort(time_steps, kind="stable")
     point_data = [point_data[i] for i in idx]
     cell_data = [cell_data[i] for i in idx]
     time_steps = [time_steps[i] for i in idx]
-- 
2.43.0


From ffcdb46ee9e9d5a7bc37f2c65648de28095dfe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 052/100] fix: do not let meshio writers modify point data of
 the mesh

---
 toughio/_mesh/_mesh.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 0296cf0..95fb15a 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -258,8 +258,12 @@ class Mesh(object):
             Output mesh.
 
         """
-        keys = ["points", "point_data", "field_data"]
-        kwargs = {key: getattr(self, key) for key in keys}
+        # Writers of meshio may modify the dicts they are given
+        kwargs = {
+            "points": self.points,
+            "point_data": dict(self.point_data),
+            "field_data": dict(self.field_data),
+        }
 
         version = get_meshio_version()
         cell_data = {k: self.split(v) for k, v in self.cell_data.items()}
-- 
2.43.0


From 03921ebc089c19430fed4e829dce43382026d7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 053/100] fix: do not reorder the outputs given to read_output
 in place

---
 toughio/_io/output/_common.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/output/_common.py b/toughio/_io/output/_common.py
index eaa3b18..4c5fb06 100644
--- a/toughio/_io/output/_common.py
+++ b/toughio/_io/output/_common.py
@@ -36,9 +36,8 @@ def reorder_labels(data, labels):
 
     mapper = {k: v for v, k in enumerate(data.labels)}
     idx = [mapper[label] for label in labels]
-    data.labels[:] = data.labels[idx]
 
-    for k, v in data.data.items():
-        data.data[k] = v[idx]
-
-    return data
+    return data._replace(
+        labels=data.labels[idx],
+        data={k: v[idx] for k, v in data.data.items()},
+    )
-- 
2.43.0


From aef35292de4d4149280d51978696b15f68af4266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:49 +0000
Subject: [PATCH 054/100] fix: do not take a box filter of zero length for an
 unbounded one

---
 toughio/_mesh/_filter/box/_box.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_mesh/_filter/box/_box.py b/toughio/_mesh/_filter/box/_box.py
index 32b7441..d0e0065 100644
--- a/toughio/_mesh/_filter/box/_box.py
+++ b/toughio/_mesh/_filter/box/_box.py
@@ -13,9 +13,9 @@ def filter_(mesh, x0=None, y0=None, z0=None, dx=None, dy=None, dz=None):
     ymin = y0 if y0 is not None else -numpy.inf
     zmin = z0 if z0 is not None else -numpy.inf
 
-    xmax = xmin + dx if dx else numpy.inf
-    ymax = ymin + dy if dy else numpy.inf
-    zmax = zmin + dz if dz else numpy.inf
+    xmax = xmin + dx if dx is not None else numpy.inf
+    ymax = ymin + dy if dy is not None else numpy.inf
+    zmax = zmin + dz if dz is not None else numpy.inf
 
     x, y, z = mesh.centers.T
     mask_x = numpy.logical_and(x >= xmin, x <= xmax)
-- 
2.43.0


From 128277cccdddbbad5fe9ea6c9b6ef21a5646a7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:11 +0000
Subject: [PATCH 055/100] fix: give qualities of meshes with unconnected cells

---
 toughio/_mesh/_mesh.py       | 7 +++++--
 toughio/_mesh/_properties.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 95fb15a..84630f7 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -819,10 +819,13 @@ class Mesh(object):
         Return qualities of cells in mesh.
 
         The quality of a cell is measured as the minimum cosine angle between the
-        connection line and the interface normal vectors.
+        connection line and the interface normal vectors. It is not defined for cells
+        that are not connected to any other cell.
 
         """
-        return numpy.array([numpy.min(out) for out in _qualities(self)])
+        return numpy.array(
+            [numpy.min(out) if len(out) else numpy.nan for out in _qualities(self)]
+        )
 
     @property
     def filter(self):
diff --git a/toughio/_mesh/_properties.py b/toughio/_mesh/_properties.py
index 329d3c3..9639c01 100644
--- a/toughio/_mesh/_properties.py
+++ b/toughio/_mesh/_properties.py
@@ -201,13 +201,16 @@ def _qualities(mesh):
 
         cell_list.add(i)
 
+    # Reorganize output
+    out = [[] for _ in range(mesh.n_cells)]
+    if not mapper:
+        return out
+
     int_normals = numpy.array(int_normals)
     lines = numpy.diff(centers, axis=1)[:, 0]
     lines /= numpy.linalg.norm(lines, axis=1)[:, None]
     angles = numpy.abs((lines * int_normals).sum(axis=1))
 
-    # Reorganize output
-    out = [[] for _ in range(mesh.n_cells)]
     for (i, j), angle in zip(mapper, angles):
         out[i].append(angle)
         out[j].append(angle)
-- 
2.43.0


From 04117b7899ff6dc54ca109a10199e4a52c52302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 056/100] fix: keep columns of Tecplot outputs apart

---
 toughio/_io/output/tecplot/_tecplot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/output/tecplot/_tecplot.py b/toughio/_io/output/tecplot/_tecplot.py
index ff2fefa..022459b 100644
--- a/toughio/_io/output/tecplot/_tecplot.py
+++ b/toughio/_io/output/tecplot/_tecplot.py
@@ -72,7 +72,10 @@ def write(filename, output):
 
     with open(filename, "w") as f:
         # Headers
-        record = "".join("{:>18}".format(header) for header in headers)
+        record = "".join(
+            " {:>17}".format('"{}"'.format(header) if " " in header else header)
+            for header in headers
+        )
         f.write("{}{}\n".format("{:>18}".format("VARIABLES       ="), record))
 
         # Data
@@ -86,5 +89,5 @@ def write(filename, output):
             # Table
             data = numpy.transpose([out.data[k] for k in headers])
             for d in data:
-                record = "".join("{:20.12e}".format(x) for x in d)
+                record = "".join(" {:19.12e}".format(x) for x in d)
                 f.write("{}{}\n".format("{:18}".format(""), record))
-- 
2.43.0


From 15205a8469ebd23588a5fa0acd9cd463b4ed8351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 057/100] fix: keep the order of time steps in PetraSim reader

---
 toughio/_io/output/petrasim/_petrasim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/output/petrasim/_petrasim.py b/toughio/_io/output/petrasim/_petrasim.py
index 1f22584..db605df 100644
--- a/toughio/_io/output/petrasim/_petrasim.py
+++ b/toughio/_io/output/petrasim/_petrasim.py
@@ -35,7 +35,7 @@ def read(filename, file_type, file_format, labels_order):
     data = numpy.array(data)
 
     labels, unique_times, variables = [], [], []
-    for time in numpy.unique(times):
+    for time in dict.fromkeys(times):
         idx = times == time
         labels.append(elements[idx])
         unique_times.append(time)
-- 
2.43.0


From 0183dc4866feb2e5f2d389495fef12d92cf619cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 058/100] fix: write CSV outputs that have no time

---
 toughio/_io/output/csv/_csv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/output/csv/_csv.py b/toughio/_io/output/csv/_csv.py
index 4353c1a..460c14e 100644
--- a/toughio/_io/output/csv/_csv.py
+++ b/toughio/_io/output/csv/_csv.py
@@ -125,7 +125,8 @@ def _write_csv(f, output, headers):
     ]
     for out in output:
         # Time step
-        f.write('"TIME [sec]  {:.8e}"\n'.format(out.time))
+        if out.time is not None:
+            f.write('"TIME [sec]  {:.8e}"\n'.format(out.time))
 
         # Table
         for i, label in enumerate(out.labels):
-- 
2.43.0


From 48972f02befaa29d7062dc01ce95e7eede537eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 059/100] fix: write CSV variables whose name starts with ELEM

---
 toughio/_io/output/csv/_csv.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/toughio/_io/output/csv/_csv.py b/toughio/_io/output/csv/_csv.py
index 460c14e..d5182ea 100644
--- a/toughio/_io/output/csv/_csv.py
+++ b/toughio/_io/output/csv/_csv.py
@@ -120,9 +120,8 @@ def _write_csv(f, output, headers):
     f.write(",".join('"{:>18}"'.format(unit) for unit in units) + "\n")
 
     # Data
-    formats = [
-        '"{:>18}"' if header.startswith("ELEM") else "{:20.12e}" for header in headers
-    ]
+    ilab = 1 if headers[0] == "ELEM" else 2
+    formats = ['"{:>18}"'] * ilab + ["{:20.12e}"] * (len(headers) - ilab)
     for out in output:
         # Time step
         if out.time is not None:
@@ -131,7 +130,7 @@ def _write_csv(f, output, headers):
         # Table
         for i, label in enumerate(out.labels):
             record = [label] if isinstance(label, str) else [l for l in label]
-            record += [out.data[k][i] for k in headers if not k.startswith("ELEM")]
+            record += [out.data[k][i] for k in headers[ilab:]]
             record = (
                 ",".join(
                     fmt.format(rec) if rec is not None else fmt.format(0.0)
-- 
2.43.0


From 205cedaa51e86c7798a61adb5eca2151ae9b56f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:52 +0000
Subject: [PATCH 060/100] fix: do not take labels starting with TIME for time
 steps in CSV reader

---
 toughio/_io/output/csv/_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/output/csv/_csv.py b/toughio/_io/output/csv/_csv.py
index d5182ea..254ad25 100644
--- a/toughio/_io/output/csv/_csv.py
+++ b/toughio/_io/output/csv/_csv.py
@@ -80,7 +80,7 @@ def _read_csv(f, file_type):
         line = line.split(",")
 
         # Time step
-        if line[0].startswith("TIME"):
+        if len(line) == 1 and line[0].startswith("TIME"):
             line = line[0].split()
             times.append(float(line[-1]))
             variables.append([])
-- 
2.43.0


From 515f6b4a643a9edeefb67b00880254da193426b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 061/100] fix: read the last key of a Tecplot zone record

---
 toughio/_mesh/tecplot/_tecplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 01d938b..853cf86 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -222,7 +222,7 @@ def _read_zone(line):
     # Split remaining key/value pairs separated by '='
     line = [x for x in line.replace(",", " ").split() if x != "="]
     i = 0
-    while i < len(line) - 1:
+    while i < len(line):
         if "=" in line[i]:
             if not (line[i].startswith("=") or line[i].endswith("=")):
                 key, value = line[i].split("=")
-- 
2.43.0


From b06fa4920082f4295ebee27d5d3327f9c3acba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 062/100] fix: read TOUGH listings with a given label length

---
 toughio/_io/output/tough/_tough.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/toughio/_io/output/tough/_tough.py b/toughio/_io/output/tough/_tough.py
index 3e2d216..a0cf84e 100644
--- a/toughio/_io/output/tough/_tough.py
+++ b/toughio/_io/output/tough/_tough.py
@@ -75,13 +75,14 @@ def _read_table(f, file_type, label_length):
                 if line[:10].strip() and not line.strip().startswith("ELEM"):
                     line = line.lstrip()
 
-                    if first and not label_length:
+                    if not label_length:
                         label_length = get_label_length(line[:9])
-                        iend = (
-                            label_length
-                            if file_type == "element"
-                            else 2 * label_length + 2
-                        )
+
+                    iend = (
+                        label_length
+                        if file_type == "element"
+                        else 2 * label_length + 2
+                    )
 
                     tmp = (
                         [line[:label_length]]
-- 
2.43.0


From 3f14a7041ec0a7a23e9b0d6b35e53ae971637a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 063/100] fix: separate touching columns of TOUGH listings

---
 toughio/_io/output/tough/_tough.py | 46 ++++++------------------------
 1 file changed, 8 insertions(+), 38 deletions(-)

diff --git a/toughio/_io/output/tough/_tough.py b/toughio/_io/output/tough/_tough.py
index a0cf84e..5cebedc 100644
--- a/toughio/_io/output/tough/_tough.py
+++ b/toughio/_io/output/tough/_tough.py
@@ -1,13 +1,15 @@
 from __future__ import with_statement
 
-from functools import partial
+import re
 
 import numpy
 
 from ...._common import get_label_length
-from ...input.tough._helpers import read_record, str2float
+from ...input.tough._helpers import str2float
 from .._common import to_output
 
+_touching = re.compile(r"(?<=\d)([+-]\d*\.)")
+
 __all__ = [
     "read",
 ]
@@ -39,7 +41,6 @@ def _read_table(f, file_type, label_length):
     """Read data table for current time step."""
     labels_key = "ELEM." if file_type == "element" else "ELEM1"
 
-    first = True
     times, variables = [], []
     for line in f:
         line = line.strip()
@@ -90,41 +91,10 @@ def _read_table(f, file_type, label_length):
                         else [line[:label_length], line[label_length + 2 : iend]]
                     )
 
-                    line = line[iend:]
-                    if first:
-                        try:
-                            # Set line parser and try parsing first line
-                            reader = lambda line: [_str2float(x) for x in line.split()]
-                            _ = reader(line)
-
-                        except ValueError:
-                            # Determine number of characters for index
-                            idx = line.replace("-", " ").split()[0]
-                            nidx = line.index(idx) + len(idx)
-                            ifmt = "{}s".format(nidx)
-
-                            # Determine number of characters between two Es
-                            i1 = line.find("E")
-                            i2 = line.find("E", i1 + 1)
-
-                            # Initialize data format
-                            fmt = [ifmt]
-                            if i2 >= 0:
-                                di = i2 - i1
-                                dfmt = "{}.{}e".format(di, di - 7)
-                                fmt += 20 * [dfmt]  # Read 20 data columns at most
-                            else:
-                                fmt += ["12.5e"]
-                            fmt = ",".join(fmt)
-
-                            # Set line parser
-                            reader = partial(read_record, fmt=fmt)
-
-                        finally:
-                            first = False
-
-                    tmp += reader(line)
-                    variables[-1].append([x for x in tmp if x is not None])
+                    # A negative number may touch the number on its left
+                    line = _touching.sub(r" \1", line[iend:])
+                    tmp += [_str2float(x) for x in line.split()]
+                    variables[-1].append(tmp)
 
                 line = next(f)
                 if line[1:].startswith("@@@@@"):
-- 
2.43.0


From 51ad5953aedc7ee9f25ca47fcfb9d0e73d2a20f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 064/100] fix: accept arrays of labels when reading SAVE files

---
 toughio/_io/output/save/_save.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/output/save/_save.py b/toughio/_io/output/save/_save.py
index a99b2f2..27c7e95 100644
--- a/toughio/_io/output/save/_save.py
+++ b/toughio/_io/output/save/_save.py
@@ -32,7 +32,9 @@ def read(filename, file_type, file_format, labels_order):
         data["userx"] = numpy.array(userx)
 
     labels_order = (
-        labels_order if labels_order else parameters["initial_conditions_order"]
+        labels_order
+        if labels_order is not None
+        else parameters["initial_conditions_order"]
     )
     output = Output(file_type, file_format, None, numpy.array(labels), data)
     return reorder_labels(output, labels_order)
-- 
2.43.0


From 1f5c0182bfdc1180466e1624c073a2fa584132a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 065/100] fix: read SAVE files in which some cells have no
 porosity or no userx

---
 toughio/_io/output/save/_save.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/toughio/_io/output/save/_save.py b/toughio/_io/output/save/_save.py
index 27c7e95..61bc7ba 100644
--- a/toughio/_io/output/save/_save.py
+++ b/toughio/_io/output/save/_save.py
@@ -19,17 +19,16 @@ def read(filename, file_type, file_format, labels_order):
 
     data = {"X{}".format(i + 1): x for i, x in enumerate(numpy.transpose(variables))}
 
-    data["porosity"] = numpy.array(
-        [v["porosity"] for v in parameters["initial_conditions"].values()]
-    )
-
-    userx = [
-        v["userx"]
-        for v in parameters["initial_conditions"].values()
-        if "userx" in v.keys()
-    ]
-    if userx:
-        data["userx"] = numpy.array(userx)
+    incons = parameters["initial_conditions"].values()
+    if any("porosity" in v.keys() for v in incons):
+        data["porosity"] = numpy.array([v.get("porosity", numpy.nan) for v in incons])
+
+    userx = [v.get("userx", []) for v in incons]
+    n = max((len(x) for x in userx), default=0)
+    if n:
+        data["userx"] = numpy.array(
+            [list(x) + (n - len(x)) * [numpy.nan] for x in userx], dtype=float
+        )
 
     labels_order = (
         labels_order
-- 
2.43.0


From de34ebec5a46667da36ff0918fcca33201008238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:15 +0000
Subject: [PATCH 066/100] fix: read output values whose exponent has no letter

---
 toughio/_io/output/_helpers.py           | 3 ++-
 toughio/_io/output/csv/_csv.py           | 5 +++--
 toughio/_io/output/petrasim/_petrasim.py | 5 +++--
 toughio/_io/output/tecplot/_tecplot.py   | 5 +++--
 toughio/_io/output/tough/_tough.py       | 2 +-
 5 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/toughio/_io/output/_helpers.py b/toughio/_io/output/_helpers.py
index cb6c0dd..0f36009 100644
--- a/toughio/_io/output/_helpers.py
+++ b/toughio/_io/output/_helpers.py
@@ -3,6 +3,7 @@ from __future__ import with_statement
 import numpy
 
 from ..._common import filetype_from_filename, register_format
+from ..input.tough._helpers import str2float
 from ._common import Output
 
 __all__ = [
@@ -177,7 +178,7 @@ def read_history(filename):
         data = []
         line = f.readline().strip()
         while line:
-            data += [[float(x) for x in line.split(sep)]]
+            data += [[str2float(x) for x in line.split(sep)]]
             line = f.readline().strip()
         data = numpy.transpose(data)
 
diff --git a/toughio/_io/output/csv/_csv.py b/toughio/_io/output/csv/_csv.py
index 254ad25..19ef9a6 100644
--- a/toughio/_io/output/csv/_csv.py
+++ b/toughio/_io/output/csv/_csv.py
@@ -2,6 +2,7 @@ from __future__ import with_statement
 
 import numpy
 
+from ...input.tough._helpers import str2float
 from .._common import to_output
 
 __all__ = [
@@ -82,13 +83,13 @@ def _read_csv(f, file_type):
         # Time step
         if len(line) == 1 and line[0].startswith("TIME"):
             line = line[0].split()
-            times.append(float(line[-1]))
+            times.append(str2float(line[-1]))
             variables.append([])
 
         # Output
         else:
             tmp = [l.strip() for l in line[:ilab]]
-            tmp += [float(l.strip()) for l in line[ilab:]]
+            tmp += [str2float(l.strip()) for l in line[ilab:]]
             variables[-1].append(tmp)
 
         line = f.readline().strip().replace('"', "")
diff --git a/toughio/_io/output/petrasim/_petrasim.py b/toughio/_io/output/petrasim/_petrasim.py
index db605df..3c4fa42 100644
--- a/toughio/_io/output/petrasim/_petrasim.py
+++ b/toughio/_io/output/petrasim/_petrasim.py
@@ -2,6 +2,7 @@ from __future__ import with_statement
 
 import numpy
 
+from ...input.tough._helpers import str2float
 from .._common import to_output
 
 __all__ = [
@@ -24,9 +25,9 @@ def read(filename, file_type, file_format, labels_order):
 
             if line:
                 line = line.split(",")
-                times.append(float(line[0]))
+                times.append(str2float(line[0]))
                 elements.append(line[1].strip())
-                data.append([float(x) for x in line[3:]])
+                data.append([str2float(x) for x in line[3:]])
             else:
                 break
 
diff --git a/toughio/_io/output/tecplot/_tecplot.py b/toughio/_io/output/tecplot/_tecplot.py
index 022459b..e722ecb 100644
--- a/toughio/_io/output/tecplot/_tecplot.py
+++ b/toughio/_io/output/tecplot/_tecplot.py
@@ -3,6 +3,7 @@ from __future__ import with_statement
 import numpy
 
 from ...._mesh.tecplot._tecplot import _read_variables, _read_zone
+from ...input.tough._helpers import str2float
 from .._common import to_output
 
 __all__ = [
@@ -30,7 +31,7 @@ def read(filename, file_type, file_format, labels_order):
             # Read zone
             if line.startswith("ZONE"):
                 zone = _read_zone(line)
-                zone["T"] = float(zone["T"].split()[0]) if "T" in zone.keys() else None
+                zone["T"] = str2float(zone["T"].split()[0]) if "T" in zone.keys() else None
                 if "I" not in zone.keys():
                     raise ValueError()
 
@@ -38,7 +39,7 @@ def read(filename, file_type, file_format, labels_order):
             data = []
             for _ in range(zone["I"]):
                 line = f.readline().strip()
-                data.append([float(x) for x in line.split()])
+                data.append([str2float(x) for x in line.split()])
             data = numpy.array(data)
 
             # Output
diff --git a/toughio/_io/output/tough/_tough.py b/toughio/_io/output/tough/_tough.py
index 5cebedc..2ca3f16 100644
--- a/toughio/_io/output/tough/_tough.py
+++ b/toughio/_io/output/tough/_tough.py
@@ -49,7 +49,7 @@ def _read_table(f, file_type, label_length):
         if line.startswith("TOTAL TIME"):
             # Read time step in following line
             line = next(f).strip()
-            times.append(float(line.split()[0]))
+            times.append(str2float(line.split()[0]))
             variables.append([])
 
             # Look for "ELEM." or "ELEM1"
-- 
2.43.0


From bbf3171e802c0c0655dc9f1414449433a19f9c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:21 +0000
Subject: [PATCH 067/100] fix: separate columns of TOUGH listings that touch
 NaN or asterisks

---
 toughio/_io/output/tough/_tough.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/output/tough/_tough.py b/toughio/_io/output/tough/_tough.py
index 2ca3f16..31a5e8d 100644
--- a/toughio/_io/output/tough/_tough.py
+++ b/toughio/_io/output/tough/_tough.py
@@ -8,7 +8,7 @@ from ...._common import get_label_length
 from ...input.tough._helpers import str2float
 from .._common import to_output
 
-_touching = re.compile(r"(?<=\d)([+-]\d*\.)")
+_touching = re.compile(r"(?<=\S)(?=[+-]\d*\.)|(?<=[^\s*])(?=\*)")
 
 __all__ = [
     "read",
@@ -91,8 +91,8 @@ def _read_table(f, file_type, label_length):
                         else [line[:label_length], line[label_length + 2 : iend]]
                     )
 
-                    # A negative number may touch the number on its left
-                    line = _touching.sub(r" \1", line[iend:])
+                    # Negative numbers and asterisks may touch the column on their left
+                    line = _touching.sub(" ", line[iend:])
                     tmp += [_str2float(x) for x in line.split()]
                     variables[-1].append(tmp)
 
-- 
2.43.0


From 2f32f3c96f5369ad6d442f5d0f880e9e3e834342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:04 +0000
Subject: [PATCH 068/100] fix: do not destroy files when save2incon is given
 the same or an invalid file

---
 toughio/_cli/_save2incon.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/toughio/_cli/_save2incon.py b/toughio/_cli/_save2incon.py
index bfc54c8..23586a6 100644
--- a/toughio/_cli/_save2incon.py
+++ b/toughio/_cli/_save2incon.py
@@ -13,19 +13,18 @@ def save2incon(argv=None):
     if not os.path.isfile(args.infile):
         raise ValueError("SAVE file '{}' not found.".format(args.infile))
 
+    # Buffer SAVE file (output file can be the same file)
+    with open(args.infile, "r") as f:
+        save_file = list(f)
+    if not (save_file and save_file[0].startswith("INCON")):
+        raise ValueError("Invalid SAVE file.")
+
     # Write INCON file
     with open(args.outfile, "w") as f:
-        first = True
-        with open(args.infile, "r") as fsave:
-            for line in fsave:
-                if first:
-                    if not line.startswith("INCON"):
-                        raise ValueError("Invalid SAVE file.")
-                    else:
-                        first = False
-                if args.reset and line.startswith("+++"):
-                    break
-                f.write(line)
+        for line in save_file:
+            if args.reset and line.startswith("+++"):
+                break
+            f.write(line)
 
         if args.reset:
             f.write("\n")
-- 
2.43.0


From e31b4e68ba86363898d78d5876598ec3b3ecd2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:02 +0000
Subject: [PATCH 069/100] fix: end INCON with a blank line when the last line
 of SAVE is not ended

---
 toughio/_cli/_save2incon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toughio/_cli/_save2incon.py b/toughio/_cli/_save2incon.py
index 23586a6..ce5e93e 100644
--- a/toughio/_cli/_save2incon.py
+++ b/toughio/_cli/_save2incon.py
@@ -19,6 +19,10 @@ def save2incon(argv=None):
     if not (save_file and save_file[0].startswith("INCON")):
         raise ValueError("Invalid SAVE file.")
 
+    # Blank line that ends INCON follows a whole line
+    if args.reset and not save_file[-1].endswith("\n"):
+        save_file[-1] += "\n"
+
     # Write INCON file
     with open(args.outfile, "w") as f:
         for line in save_file:
-- 
2.43.0


From e6c52a8c485e145f0691dcafed2eb265a1947b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:02 +0000
Subject: [PATCH 070/100] fix: reject decks without ROCKS, PARAM or end in
 merge

---
 toughio/_cli/_merge.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/toughio/_cli/_merge.py b/toughio/_cli/_merge.py
index dceffa5..bef7d12 100644
--- a/toughio/_cli/_merge.py
+++ b/toughio/_cli/_merge.py
@@ -25,10 +25,8 @@ def merge(argv=None):
         input_file = list(f)
 
     # Check that input file has at least blocks ROCKS, PARAM, ENDFI or ENDCY
-    count = 0
-    for line in input_file:
-        count += int(line.upper()[:5] in {"ROCKS", "PARAM", "ENDFI", "ENDCY"})
-    if count < 3:
+    blocks = {line.upper()[:5] for line in input_file}
+    if not ({"ROCKS", "PARAM"} <= blocks and blocks & {"ENDFI", "ENDCY"}):
         raise ValueError("Invalid input file '{}'.".format(args.infile))
 
     # Buffer MESH
-- 
2.43.0


From 8afbf1593ee73af48773d9109a21e0f29df14bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:02 +0000
Subject: [PATCH 071/100] fix: reject empty MESH and INCON files in merge

---
 toughio/_cli/_merge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_cli/_merge.py b/toughio/_cli/_merge.py
index bef7d12..810ed29 100644
--- a/toughio/_cli/_merge.py
+++ b/toughio/_cli/_merge.py
@@ -32,14 +32,14 @@ def merge(argv=None):
     # Buffer MESH
     with open(mesh_filename, "r") as f:
         mesh_file = list(f)
-    if not mesh_file[0].startswith("ELEME"):
+    if not (mesh_file and mesh_file[0].startswith("ELEME")):
         raise ValueError("Invalid MESH file.")
 
     # Buffer INCON if exist
     if incon_exists:
         with open(incon_filename, "r") as f:
             incon_file = list(f)
-        if not incon_file[0].startswith("INCON"):
+        if not (incon_file and incon_file[0].startswith("INCON")):
             raise ValueError("Invalid INCON file.")
 
     # Locate ENDFI or ENDCY
-- 
2.43.0


From b5857bb0ac3a183992e6d035179df0d86af09be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:02 +0000
Subject: [PATCH 072/100] fix: do not join the last line of MESH or INCON with
 the next one in merge

---
 toughio/_cli/_merge.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/toughio/_cli/_merge.py b/toughio/_cli/_merge.py
index 810ed29..5334cf9 100644
--- a/toughio/_cli/_merge.py
+++ b/toughio/_cli/_merge.py
@@ -47,6 +47,11 @@ def merge(argv=None):
         if line.upper()[:5] in {"ENDFI", "ENDCY"}:
             break
 
+    # Lines are joined with those of other files
+    for lines in (mesh_file, incon_file if incon_exists else []):
+        if lines and not lines[-1].endswith("\n"):
+            lines[-1] += "\n"
+
     # Buffer output file
     output_file = input_file[:i]
     output_file += mesh_file
-- 
2.43.0


From 48be388fc351ec38a562be2401c757b243657c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:55 +0000
Subject: [PATCH 073/100] fix: assign data to the right voxels in export

---
 toughio/_cli/_export.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/toughio/_cli/_export.py b/toughio/_cli/_export.py
index ae07897..69c387b 100644
--- a/toughio/_cli/_export.py
+++ b/toughio/_cli/_export.py
@@ -104,15 +104,9 @@ def export(argv=None):
             mesh = voxelize(points, args.origin, layer=args.layer)
             mesh.cell_dada = {}
 
-            idx = numpy.arange(len(points))
-            idx = numpy.array(
-                [
-                    x
-                    for x, _ in sorted(
-                        zip(idx, points), key=lambda x: (x[1][2], x[1][1], x[1][0])
-                    )
-                ]
-            )
+            # Sort points in the same order as cells (from top to bottom)
+            x, y, z = points.T
+            idx = numpy.lexsort((x, y, -z) if args.layer else (-z, y, x))
 
             if args.file_format != "xdmf":
                 for label, data in output.data.items():
-- 
2.43.0


From d1af2c5870ec1c1cfa20bd2ddf15ec416c156ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:55 +0000
Subject: [PATCH 074/100] fix: use the file format requested when splitting in
 extract

---
 toughio/_cli/_extract.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/toughio/_cli/_extract.py b/toughio/_cli/_extract.py
index a1fc63a..b7dc16a 100644
--- a/toughio/_cli/_extract.py
+++ b/toughio/_cli/_extract.py
@@ -85,7 +85,11 @@ def extract(argv=None):
     else:
         head, ext = os.path.splitext(filename)
         for i, out in enumerate(output):
-            write_output("{}_{}{}".format(head, i + 1, ext), out, file_format="csv")
+            write_output(
+                "{}_{}{}".format(head, i + 1, ext),
+                out,
+                file_format=args.file_format,
+            )
 
 
 def _get_parser():
-- 
2.43.0


From 2bd2936661c615a13b1606791fa81cbafce6fdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:55 +0000
Subject: [PATCH 075/100] fix: export SAVE files

---
 toughio/_cli/_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toughio/_cli/_export.py b/toughio/_cli/_export.py
index 69c387b..07021ac 100644
--- a/toughio/_cli/_export.py
+++ b/toughio/_cli/_export.py
@@ -20,7 +20,7 @@ def export(argv=None):
     import sys
 
     from .. import read_mesh, read_output, write_time_series
-    from .._io.output._common import reorder_labels
+    from .._io.output._common import Output, reorder_labels
     from ..meshmaker import triangulate, voxelize
 
     parser = _get_parser()
@@ -51,6 +51,7 @@ def export(argv=None):
     print("Reading file '{}' ...".format(args.infile), end="")
     sys.stdout.flush()
     output = read_output(args.infile)
+    output = [output] if isinstance(output, Output) else output
     if args.file_format != "xdmf":
         if args.time_step is not None:
             if not (-len(output) <= args.time_step < len(output)):
-- 
2.43.0


From ea544a479f6d15b3e2e0bc3bbe1196f51db91690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:55 +0000
Subject: [PATCH 076/100] fix: export results without time to XDMF

---
 toughio/_cli/_export.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toughio/_cli/_export.py b/toughio/_cli/_export.py
index 07021ac..3834c1b 100644
--- a/toughio/_cli/_export.py
+++ b/toughio/_cli/_export.py
@@ -176,6 +176,8 @@ def export(argv=None):
                 for out in output
             ]
         time_steps = [out.time for out in output]
+        if any(t is None for t in time_steps):
+            time_steps = None
 
         if with_mesh or voxelized:
             write_time_series(
-- 
2.43.0


From 17bc434de356971e29891d52c20c29783975bc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:55 +0000
Subject: [PATCH 077/100] fix: keep data on their elements when their order
 changes between time steps in export

---
 toughio/_cli/_export.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/toughio/_cli/_export.py b/toughio/_cli/_export.py
index 3834c1b..4bbed25 100644
--- a/toughio/_cli/_export.py
+++ b/toughio/_cli/_export.py
@@ -82,6 +82,12 @@ def export(argv=None):
     if not with_mesh:
         print("{} ...".format(msg), end="")
         sys.stdout.flush()
+        if args.file_format == "xdmf" and input_format != "tecplot":
+            labels = output[0].labels
+            output = [
+                reorder_labels(out, labels) if out.type == "element" else out
+                for out in output
+            ]
         points, axis = _get_points(output if args.file_format != "xdmf" else output[0])
         ndim = len(axis)
         print(" Done!")
-- 
2.43.0


From b56e0f3ac219e297231f7b6cee067659357e2d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 078/100] fix: use the elements of each time step in extract

---
 toughio/_cli/_extract.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/toughio/_cli/_extract.py b/toughio/_cli/_extract.py
index b7dc16a..e2ca6e6 100644
--- a/toughio/_cli/_extract.py
+++ b/toughio/_cli/_extract.py
@@ -47,22 +47,22 @@ def extract(argv=None):
         raise ValueError("Invalid TOUGH output file '{}'.".format(args.infile))
 
     try:
-        if not args.connection:
-            points = numpy.vstack(
-                [parameters["elements"][label]["center"] for label in output[-1].labels]
-            )
-        else:
-            points = numpy.array(
-                [
-                    numpy.mean(
-                        [parameters["elements"][l]["center"] for l in label], axis=0
-                    )
-                    for label in output[-1].labels
-                ]
-            )
-        points = {k: v for k, v in zip(["X", "Y", "Z"], points.T)}
         for out in output:
-            out.data.update(points)
+            if not args.connection:
+                points = numpy.vstack(
+                    [parameters["elements"][label]["center"] for label in out.labels]
+                )
+            else:
+                points = numpy.array(
+                    [
+                        numpy.mean(
+                            [parameters["elements"][l]["center"] for l in label],
+                            axis=0,
+                        )
+                        for label in out.labels
+                    ]
+                )
+            out.data.update({k: v for k, v in zip(["X", "Y", "Z"], points.T)})
 
     except KeyError:
         raise ValueError(
-- 
2.43.0


From cf6de1fb524ed76e7ab36f36565eed75913df3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:29 +0000
Subject: [PATCH 079/100] fix: reject repeated points in voxelize

---
 toughio/meshmaker/_voxelize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toughio/meshmaker/_voxelize.py b/toughio/meshmaker/_voxelize.py
index 60677f0..538b67b 100644
--- a/toughio/meshmaker/_voxelize.py
+++ b/toughio/meshmaker/_voxelize.py
@@ -59,7 +59,8 @@ def voxelize(points, origin, layer=False, material="dfalt"):
     x = numpy.unique(x)
     y = numpy.unique(y)
     z = numpy.unique(z)
-    if x.size * y.size * z.size != len(points):
+    n_points = len(numpy.unique(points, axis=0))
+    if not (x.size * y.size * z.size == n_points == len(points)):
         raise ValueError("Input points do not form a structured grid.")
 
     x0, y0, z0 = origin
-- 
2.43.0


From e5910cf65a0343a95af09584ee126f1f64899493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:03 +0000
Subject: [PATCH 080/100] fix: accept registered formats in read_input and
 write_input

---
 toughio/_io/input/_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/_helpers.py b/toughio/_io/input/_helpers.py
index 2c7b221..42d271f 100644
--- a/toughio/_io/input/_helpers.py
+++ b/toughio/_io/input/_helpers.py
@@ -67,7 +67,7 @@ def read(filename, file_format=None, **kwargs):
     """
     if not isinstance(filename, str):
         raise TypeError()
-    if not (file_format is None or file_format in {"tough", "json"}):
+    if not (file_format is None or file_format in _reader_map):
         raise ValueError()
 
     fmt = (
@@ -107,7 +107,7 @@ def write(filename, parameters, file_format=None, **kwargs):
         raise TypeError()
     if not isinstance(parameters, dict):
         raise TypeError()
-    if not (file_format is None or file_format in {"tough", "json"}):
+    if not (file_format is None or file_format in _writer_map):
         raise ValueError()
 
     fmt = (
-- 
2.43.0


From e8781b9b09e2756190c77d9b7867afe0775ce377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:03 +0000
Subject: [PATCH 081/100] fix: find formats registered with upper-case
 extensions

---
 toughio/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_common.py b/toughio/_common.py
index 1ba930a..e977872 100644
--- a/toughio/_common.py
+++ b/toughio/_common.py
@@ -103,7 +103,7 @@ def register_format(
 ):
     """Register a new format."""
     for ext in extensions:
-        ext_to_fmt[ext] = fmt
+        ext_to_fmt[ext.lower()] = fmt
 
     if reader is not None:
         reader_map[fmt] = reader
-- 
2.43.0


From a2e0ff92be826de4e238e3bea0c0908a4409b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:06 +0000
Subject: [PATCH 082/100] fix: number of Fatt and Klikoff's relative
 permeability (IRP = 6)

---
 toughio/relative_permeability/_fatt_klikoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/relative_permeability/_fatt_klikoff.py b/toughio/relative_permeability/_fatt_klikoff.py
index 0737d40..b3f9498 100644
--- a/toughio/relative_permeability/_fatt_klikoff.py
+++ b/toughio/relative_permeability/_fatt_klikoff.py
@@ -7,7 +7,7 @@ __all__ = [
 
 class FattKlikoff(BaseRelativePermeability):
 
-    _id = 7
+    _id = 6
     _name = "Fatt-Klikoff"
 
     def __init__(self, slr):
-- 
2.43.0


From caf43646ca97c972017fae34b7c7bd465ce7dba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:06 +0000
Subject: [PATCH 083/100] fix: no van Genuchten capillary pressure above the
 maximum liquid saturation

---
 toughio/capillarity/_van_genuchten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/capillarity/_van_genuchten.py b/toughio/capillarity/_van_genuchten.py
index 7e6b16e..1564504 100644
--- a/toughio/capillarity/_van_genuchten.py
+++ b/toughio/capillarity/_van_genuchten.py
@@ -37,7 +37,7 @@ class vanGenuchten(BaseCapillarity):
     def _eval(self, sl, *args):
         """Van Genuchten function."""
         m, slr, alpha, pmax, sls = args
-        if sl == 1.0:
+        if sl == 1.0 or sl >= sls:
             pcap = 0.0
         else:
             if sl > slr:
-- 
2.43.0


From 70e0b179df3f2a0e7e96e349919e046019ca9498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:06 +0000
Subject: [PATCH 084/100] fix: plot curves with figsize given as None or as an
 array

---
 toughio/capillarity/_base.py           | 4 ++--
 toughio/relative_permeability/_base.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/toughio/capillarity/_base.py b/toughio/capillarity/_base.py
index e1f029d..6b4f1bf 100644
--- a/toughio/capillarity/_base.py
+++ b/toughio/capillarity/_base.py
@@ -79,7 +79,7 @@ class BaseCapillarity(ABC):
             raise TypeError()
         if not (figsize is None or isinstance(figsize, (tuple, list, numpy.ndarray))):
             raise TypeError()
-        if len(figsize) != 2:
+        if figsize is not None and len(figsize) != 2:
             raise ValueError()
         if not (plt_kws is None or isinstance(plt_kws, dict)):
             raise TypeError()
@@ -93,7 +93,7 @@ class BaseCapillarity(ABC):
         if ax:
             ax1 = ax
         else:
-            figsize = figsize if figsize else (8, 5)
+            figsize = figsize if figsize is not None else (8, 5)
             fig = plt.figure(figsize=figsize, facecolor="white")
             ax1 = fig.add_subplot(1, 1, 1)
 
diff --git a/toughio/relative_permeability/_base.py b/toughio/relative_permeability/_base.py
index a9db28a..80bd3c7 100644
--- a/toughio/relative_permeability/_base.py
+++ b/toughio/relative_permeability/_base.py
@@ -81,7 +81,7 @@ class BaseRelativePermeability(ABC):
             raise TypeError()
         if not (figsize is None or isinstance(figsize, (tuple, list, numpy.ndarray))):
             raise TypeError()
-        if len(figsize) != 2:
+        if figsize is not None and len(figsize) != 2:
             raise ValueError()
         if not (plt_kws is None or isinstance(plt_kws, dict)):
             raise TypeError()
@@ -95,7 +95,7 @@ class BaseRelativePermeability(ABC):
         if ax:
             ax1 = ax
         else:
-            figsize = figsize if figsize else (8, 5)
+            figsize = figsize if figsize is not None else (8, 5)
             fig = plt.figure(figsize=figsize, facecolor="white")
             ax1 = fig.add_subplot(1, 1, 1)
 
-- 
2.43.0


From a0b6dd07ccc937a9632d3ae36a00dba14e72a9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:21 +0000
Subject: [PATCH 085/100] fix: Milly's capillary pressure at zero saturation
 without residual saturation

---
 toughio/capillarity/_milly.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toughio/capillarity/_milly.py b/toughio/capillarity/_milly.py
index 3dd7957..0de1f02 100644
--- a/toughio/capillarity/_milly.py
+++ b/toughio/capillarity/_milly.py
@@ -29,6 +29,9 @@ class Milly(BaseCapillarity):
     def _eval(self, sl, *args):
         (slr,) = args
         sl = max(sl, 1.001 * slr)
+        if sl == slr:
+            return -float("inf")
+
         fac = (
             1.0
             if sl - slr >= 0.371
-- 
2.43.0


From ccfa8e0a389578893b7a9bee34630ace19d87b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:21 +0000
Subject: [PATCH 086/100] fix: no TRUST capillary pressure at full liquid
 saturation, whatever the exponent

---
 toughio/capillarity/_trust.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toughio/capillarity/_trust.py b/toughio/capillarity/_trust.py
index 5d74995..c1fc7a0 100644
--- a/toughio/capillarity/_trust.py
+++ b/toughio/capillarity/_trust.py
@@ -39,6 +39,9 @@ class TRUST(BaseCapillarity):
     def _eval(self, sl, *args):
         """TRUST capillary pressure."""
         p0, slr, eta, pe, pmax = args
+        if sl == 1.0:
+            return 0.0
+
         if sl > slr:
             pcap = -pe - p0 * ((1.0 - sl) / (sl - slr)) ** (1.0 / eta)
         else:
-- 
2.43.0


From 237ccd5d44aaf948b2646675c4ed19b596e61c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:01 +0000
Subject: [PATCH 087/100] fix: skip blank lines before the zone of a Tecplot
 file

---
 toughio/_mesh/tecplot/_tecplot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 853cf86..cb173f5 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -94,7 +94,10 @@ def read(filename):
 
 def read_buffer(f):
     while True:
-        line = f.readline().strip()
+        line = f.readline()
+        if not line:
+            raise ValueError("No finite-element zone found")
+        line = line.strip()
 
         if line.upper().startswith("VARIABLES"):
             variables = _read_variables(line)
@@ -139,9 +142,6 @@ def read_buffer(f):
 
             break  # Only support one zone, no need to read the rest
 
-        elif not line:
-            break
-
     data = (
         numpy.split(numpy.concatenate(data), numpy.cumsum(num_data[:-1]))
         if zone_format == "FEBLOCK"
-- 
2.43.0


From 4571ec3840b487ceb4f58a6f50176dee282c024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:01 +0000
Subject: [PATCH 088/100] fix: read Tecplot variables given on several lines

---
 toughio/_mesh/tecplot/_tecplot.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index cb173f5..6458e8f 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -100,7 +100,16 @@ def read_buffer(f):
         line = line.strip()
 
         if line.upper().startswith("VARIABLES"):
-            variables = _read_variables(line)
+            # Names of variables can be given on several lines
+            lines = [line]
+            i = f.tell()
+            line = f.readline()
+            while line and not line.strip().upper().startswith(("ZONE", "TITLE", "#")):
+                lines += [line.strip()]
+                i = f.tell()
+                line = f.readline()
+            f.seek(i)
+            variables = _read_variables(" ".join(lines))
 
         elif line.upper().startswith("ZONE"):
             # ZONE can be defined on several lines e.g.
-- 
2.43.0


From 85b1f86cacfa970f05bffdab8e43fdb63f35d3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:01 +0000
Subject: [PATCH 089/100] fix: stop at the end of a truncated Tecplot file

---
 toughio/_mesh/tecplot/_tecplot.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 6458e8f..5e41c6d 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -315,14 +315,20 @@ def _parse_fezone(zone, variables):
 def _read_zone_data(f, num_data, num_cells, zone_format):
     data, count = [], 0
     while count < num_data:
-        line = f.readline().strip().split()
+        line = f.readline()
+        if not line:
+            raise ValueError("Unexpected end of file")
+        line = line.split()
         if line:
             data += [[float(x) for x in line]]
             count += len(line) if zone_format == "FEBLOCK" else 1
 
     cells, count = [], 0
     while count < num_cells:
-        line = f.readline().strip().split()
+        line = f.readline()
+        if not line:
+            raise ValueError("Unexpected end of file")
+        line = line.split()
         if line:
             cells += [[[int(x) for x in line]]]
             count += 1
-- 
2.43.0


From d7a9368039017bc8d0301302cf4deda219fbe654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:23 +0000
Subject: [PATCH 090/100] fix: read sets and lists of variables in VARLOCATION
 of Tecplot zones

---
 toughio/_mesh/tecplot/_tecplot.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 5e41c6d..514d1d9 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -294,20 +294,19 @@ def _parse_fezone(zone, variables):
             node_value = zone.pop("NV")
             is_cell_centered[node_value:] = 1
         elif "VARLOCATION" in zone.keys():
-            varlocation = zone.pop("VARLOCATION")[1:-1].split(",")
-            for location in varlocation:
-                varrange, varloc = location.split("=")
-                varloc = varloc.strip()
-                if varloc == "CELLCENTERED":
-                    varrange = varrange[1:-1].split("-")
-                    if len(varrange) == 1:
-                        i = int(varrange[0]) - 1
+            varlocation = zone.pop("VARLOCATION")[1:-1]
+            if "[" in varlocation:
+                # Sets of variables e.g. ([4-5,7]=CELLCENTERED)
+                for varset, varloc in re.findall(r"\[([^]]*)\]=(\w+)", varlocation):
+                    if varloc == "CELLCENTERED":
+                        for varrange in varset.split(","):
+                            varrange = [int(i) for i in varrange.split("-")]
+                            is_cell_centered[varrange[0] - 1 : varrange[-1]] = 1
+            else:
+                # One location per variable
+                for i, varloc in enumerate(varlocation.split(",")):
+                    if varloc == "CELLCENTERED":
                         is_cell_centered[i] = 1
-                    else:
-                        imin = int(varrange[0]) - 1
-                        imax = int(varrange[1]) - 1
-                        for i in range(imin, imax + 1):
-                            is_cell_centered[i] = 1
 
     return num_nodes, num_cells, zone_format, zone_type, is_cell_centered
 
-- 
2.43.0


From bb60ba06ecada9de6513de6223c219bf3b0bb7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:23 +0000
Subject: [PATCH 091/100] fix: read Tecplot zone records in lower case

---
 toughio/_mesh/tecplot/_tecplot.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 514d1d9..21925b1 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -121,12 +121,12 @@ def read_buffer(f):
             # is valid (and understood by ParaView and VisIt).
             lines = [line]
             i = f.tell()
-            line = f.readline().strip().upper()
+            line = f.readline().strip()
             while True:
                 if line and not _is_number(line.split()[0]):
                     lines += [line]
                     i = f.tell()
-                    line = f.readline().strip().upper()
+                    line = f.readline().strip()
                 else:
                     f.seek(i)
                     break
@@ -219,12 +219,15 @@ def _read_zone(line):
     else:
         zone_title = None
 
+    # Keywords are not case sensitive
+    line = line.upper()
+
     # Look for VARLOCATION (problematic since it contains both ',' and '=')
     ivar = line.find("VARLOCATION")
 
     # If zone contains VARLOCATION, process it and remove the key/value pair
     if ivar >= 0:
-        i1, i2 = line.find("("), line.find(")")
+        i1, i2 = line.find("(", ivar), line.find(")", ivar)
         zone["VARLOCATION"] = line[i1 : i2 + 1].replace(" ", "")
         line = line[:ivar] + line[i2 + 1 :]
 
-- 
2.43.0


From 4b14c3e995cb572fdbe884406c46b69cbc6ade35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:23 +0000
Subject: [PATCH 092/100] fix: read FLAC3D grids whose groups do not hold every
 cell

---
 toughio/_mesh/flac3d/_flac3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 7ddd3dc..0372d2f 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -197,7 +197,8 @@ def read_buffer(f, binary):
             if not slots[k]:
                 continue
 
-            for cid, zid in v.values():
+            # Cells that are in no group keep 0
+            for cid, zid in (x for x in v.values() if len(x) == 2):
                 cell_data[cid] = zid
         cell_data = {"flac3d:group": numpy.split(cell_data, num_cells[:-1])}
     else:
-- 
2.43.0


From c840754b8f779a71bc441146756c0575340e7643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:08 +0000
Subject: [PATCH 093/100] fix: keep the name of a FLAC3D group given by several
 records

---
 toughio/_mesh/flac3d/_flac3d.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 0372d2f..6e7ed11 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -292,6 +292,11 @@ def _update_cells(cells, cell, flag):
 
 def _update_field_data(field_data, mapper, data, name, gidx, flag):
     """Update field data dict."""
+    # Zones and faces (or several records) can be of the same group
+    if name in field_data:
+        gidx = field_data[name][0]
+        flag = "zone" if field_data[name][1] == 3 else flag
+
     for cid in data:
         mapper[cid].append(gidx)
     field_data[name] = numpy.array([gidx, flag_to_numdim[flag]])
-- 
2.43.0


From 41e1547770358e74883341a3ad0a3849f3ff7276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:08 +0000
Subject: [PATCH 094/100] fix: read FLAC3D grids with blank lines

---
 toughio/_mesh/flac3d/_flac3d.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 6e7ed11..80881a5 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -161,8 +161,12 @@ def read_buffer(f, binary):
                 slots[flag] = _update_slots(slots[flag], slot)
                 gidx += 1
     else:
-        line = f.readline().rstrip().split()
-        while line:
+        # Stop at the end of the file rather than at a blank line
+        for line in iter(f.readline, ""):
+            line = line.rstrip().split()
+            if not line:
+                continue
+
             if line[0] == "G":
                 pid, point = _read_point(line, binary)
                 points.append(point)
@@ -188,8 +192,6 @@ def read_buffer(f, binary):
                 slots[flag] = _update_slots(slots[flag], slot)
                 gidx += 1
 
-            line = f.readline().rstrip().split()
-
     if field_data:
         num_cells = numpy.cumsum([len(c[1]) for c in cells])
         cell_data = numpy.zeros(num_cells[-1], dtype=int)
-- 
2.43.0


From 3c7065279849602d55d3f65ce6efcbb4b1df6127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:58 +0000
Subject: [PATCH 095/100] fix: give the default material of meshio meshes an id
 of its own

---
 toughio/_mesh/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 84630f7..0fb1492 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -905,7 +905,7 @@ def from_meshio(mesh, material="dfalt"):
 
     if "material" not in out.cell_data.keys():
         imat = (
-            numpy.max([v[0] for v in mesh.field_data.values() if v[1] == 3]) + 1
+            numpy.max([v[0] for v in mesh.field_data.values()]) + 1
             if mesh.field_data
             else 1
         )
-- 
2.43.0


From 0a3d275a04413751090d4c1a83f9f738ee94760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:59 +0000
Subject: [PATCH 096/100] fix: tell materials of the same id by the dimension
 of their cells

---
 toughio/_mesh/_common.py     | 16 +++++++++++++++-
 toughio/_mesh/_mesh.py       | 23 ++++++++++++++++-------
 toughio/_mesh/_properties.py | 20 ++++++++++++++++++--
 3 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/toughio/_mesh/_common.py b/toughio/_mesh/_common.py
index be9ea1b..d2f3bc9 100644
--- a/toughio/_mesh/_common.py
+++ b/toughio/_mesh/_common.py
@@ -81,7 +81,21 @@ vtk_type_to_numnodes = {
 
 meshio_type_to_ndim = {k: 3 for k in meshio_to_vtk_type.keys()}
 meshio_type_to_ndim.update(
-    {"empty": 0, "vertex": 1, "line": 2, "triangle": 2, "polygon": 2, "quad": 2}
+    {
+        "empty": 0,
+        "vertex": 0,
+        "line": 1,
+        "line3": 1,
+        "line4": 1,
+        "triangle": 2,
+        "triangle6": 2,
+        "triangle7": 2,
+        "polygon": 2,
+        "quad": 2,
+        "quad6": 2,
+        "quad8": 2,
+        "quad9": 2,
+    }
 )
 
 
diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 0fb1492..bcd916f 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -170,8 +170,13 @@ class Mesh(object):
         mesh.cell_data = {k: numpy.concatenate(v) for k, v in cell_data.items()}
 
         if mesh.field_data:
-            for k, v in mesh.field_data.items():
-                mesh.field_data[k] = numpy.array([v[0], 3])
+            # Extruded cells keep the materials they had
+            extruded = {v[0] for v in mesh.field_data.values() if v[1] == 2}
+            mesh.field_data = {
+                k: numpy.array([v[0], 3] if v[1] == 2 else v)
+                for k, v in mesh.field_data.items()
+                if not (v[1] == 3 and v[0] in extruded)
+            }
 
         if not inplace:
             return mesh
@@ -584,11 +589,15 @@ class Mesh(object):
 
         if len(cells):
             data = numpy.array(self.cell_data["material"])
-            imat = (
-                self.field_data[material][0]
-                if material in self.field_data.keys()
-                else max([data.max()] + [v[0] for v in self.field_data.values()]) + 1
-            )
+            ids = [v[0] for v in self.field_data.values()]
+            if material in self.field_data.keys():
+                imat = self.field_data[material][0]
+                if ids.count(imat) > 1:
+                    # Materials of cells of other dimensions have the same id
+                    imat = max([data.max()] + ids) + 1
+                    data[self.materials == material] = imat
+            else:
+                imat = max([data.max()] + ids) + 1
             data[numpy.asarray(cells)] = imat
             self.add_cell_data("material", data)
             self.field_data[material] = numpy.array([imat, 3])
diff --git a/toughio/_mesh/_properties.py b/toughio/_mesh/_properties.py
index 9639c01..f300a18 100644
--- a/toughio/_mesh/_properties.py
+++ b/toughio/_mesh/_properties.py
@@ -3,6 +3,13 @@ from itertools import chain
 
 import numpy
 
+from ._common import meshio_type_to_ndim
+
+
+def _ndim(cell_type):
+    """Return number of dimensions of cells of a given type."""
+    return meshio_type_to_ndim.get("polygon" if "polygon" in cell_type else cell_type)
+
 
 def _materials(mesh):
     """Return materials of cell in mesh."""
@@ -10,8 +17,17 @@ def _materials(mesh):
         if mesh.field_data:
             out = mesh.cell_data["material"]
             try:
-                field_data_dict = {v[0]: k for k, v in mesh.field_data.items()}
-                out = [field_data_dict[mat] for mat in out]
+                # Ids are unique for cells of the same dimension only
+                names = {v[0]: k for k, v in mesh.field_data.items()}
+                names_dim = {tuple(v): k for k, v in mesh.field_data.items()}
+                ndims = numpy.repeat(
+                    [_ndim(c.type) for c in mesh.cells],
+                    [len(c.data) for c in mesh.cells],
+                )
+                out = [
+                    names_dim.get((mat, ndim), names[mat])
+                    for mat, ndim in zip(out, ndims)
+                ]
             except KeyError:
                 logging.warning(
                     (
-- 
2.43.0


From 1e74fbfb1cb38872328325383f54639f0308a7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:52 +0000
Subject: [PATCH 097/100] fix: ignore field data that do not define materials

---
 toughio/_mesh/_common.py        | 25 +++++++++++++++++++++++++
 toughio/_mesh/_mesh.py          | 32 +++++++++++++++++++-------------
 toughio/_mesh/_properties.py    |  9 +++++----
 toughio/_mesh/flac3d/_flac3d.py |  7 ++++++-
 4 files changed, 55 insertions(+), 18 deletions(-)

diff --git a/toughio/_mesh/_common.py b/toughio/_mesh/_common.py
index d2f3bc9..90621e8 100644
--- a/toughio/_mesh/_common.py
+++ b/toughio/_mesh/_common.py
@@ -99,6 +99,31 @@ meshio_type_to_ndim.update(
 )
 
 
+def get_material_ids(field_data):
+    """
+    Return id and dimension of materials defined in field data.
+
+    Parameters
+    ----------
+    field_data : dict
+        Field data, that can also have arrays that do not define a material.
+
+    Returns
+    -------
+    dict
+        Id and dimension of each material.
+
+    """
+    return {
+        k: (int(v[0]), int(v[1]))
+        for k, v in field_data.items()
+        if numpy.shape(v) == (2,)
+        and numpy.asarray(v).dtype.kind in "iuf"
+        and all(x == numpy.floor(x) for x in v)
+        and 0 <= v[1] <= 3
+    }
+
+
 def get_meshio_version():
     """
     Return :mod:`meshio` version as a tuple.
diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index bcd916f..d22c4d6 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -4,7 +4,12 @@ from copy import deepcopy
 import meshio
 import numpy
 
-from ._common import get_meshio_version, get_new_meshio_cells, get_old_meshio_cells
+from ._common import (
+    get_material_ids,
+    get_meshio_version,
+    get_new_meshio_cells,
+    get_old_meshio_cells,
+)
 from ._filter import MeshFilter
 from ._properties import (
     _connections,
@@ -171,12 +176,13 @@ class Mesh(object):
 
         if mesh.field_data:
             # Extruded cells keep the materials they had
-            extruded = {v[0] for v in mesh.field_data.values() if v[1] == 2}
-            mesh.field_data = {
-                k: numpy.array([v[0], 3] if v[1] == 2 else v)
-                for k, v in mesh.field_data.items()
-                if not (v[1] == 3 and v[0] in extruded)
-            }
+            materials = get_material_ids(mesh.field_data)
+            extruded = {v[0]: k for k, v in materials.items() if v[1] == 2}
+            for k, (imat, ndim) in materials.items():
+                if ndim == 2:
+                    mesh.field_data[k] = numpy.array([imat, 3])
+                elif ndim == 3 and imat in extruded.keys():
+                    mesh.field_data.pop(k)
 
         if not inplace:
             return mesh
@@ -589,9 +595,10 @@ class Mesh(object):
 
         if len(cells):
             data = numpy.array(self.cell_data["material"])
-            ids = [v[0] for v in self.field_data.values()]
-            if material in self.field_data.keys():
-                imat = self.field_data[material][0]
+            materials = get_material_ids(self.field_data)
+            ids = [v[0] for v in materials.values()]
+            if material in materials.keys():
+                imat = materials[material][0]
                 if ids.count(imat) > 1:
                     # Materials of cells of other dimensions have the same id
                     imat = max([data.max()] + ids) + 1
@@ -913,10 +920,9 @@ def from_meshio(mesh, material="dfalt"):
     )
 
     if "material" not in out.cell_data.keys():
+        materials = get_material_ids(mesh.field_data)
         imat = (
-            numpy.max([v[0] for v in mesh.field_data.values()]) + 1
-            if mesh.field_data
-            else 1
+            numpy.max([v[0] for v in materials.values()]) + 1 if materials else 1
         )
         out.cell_data["material"] = numpy.full(out.n_cells, imat, dtype=int)
         out.field_data[material] = numpy.array([imat, 3])
diff --git a/toughio/_mesh/_properties.py b/toughio/_mesh/_properties.py
index f300a18..0662318 100644
--- a/toughio/_mesh/_properties.py
+++ b/toughio/_mesh/_properties.py
@@ -3,7 +3,7 @@ from itertools import chain
 
 import numpy
 
-from ._common import meshio_type_to_ndim
+from ._common import get_material_ids, meshio_type_to_ndim
 
 
 def _ndim(cell_type):
@@ -14,12 +14,13 @@ def _ndim(cell_type):
 def _materials(mesh):
     """Return materials of cell in mesh."""
     if "material" in mesh.cell_data.keys():
-        if mesh.field_data:
+        materials = get_material_ids(mesh.field_data)
+        if materials:
             out = mesh.cell_data["material"]
             try:
                 # Ids are unique for cells of the same dimension only
-                names = {v[0]: k for k, v in mesh.field_data.items()}
-                names_dim = {tuple(v): k for k, v in mesh.field_data.items()}
+                names = {v[0]: k for k, v in materials.items()}
+                names_dim = {v: k for k, v in materials.items()}
                 ndims = numpy.repeat(
                     [_ndim(c.type) for c in mesh.cells],
                     [len(c.data) for c in mesh.cells],
diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 80881a5..42da81a 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -6,6 +6,7 @@ import time
 import numpy
 
 from ...__about__ import __version__ as version
+from .._common import get_material_ids
 from .._helpers import get_material_key
 from .._mesh import Mesh
 
@@ -516,7 +517,11 @@ def _translate_groups(cells, cell_data, field_data, flag):
     labels[0] = "None"
     if field_data:
         labels.update(
-            {v[0]: k for k, v in field_data.items() if v[1] == flag_to_numdim[flag]}
+            {
+                v[0]: k
+                for k, v in get_material_ids(field_data).items()
+                if v[1] == flag_to_numdim[flag]
+            }
         )
 
     return groups, labels
-- 
2.43.0


From 089ead4ebfdae9d06172ca0050f204e33a855af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:52 +0000
Subject: [PATCH 098/100] fix: write FLAC3D faces with the names of their
 materials

---
 toughio/_mesh/flac3d/_flac3d.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 42da81a..5d95e69 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -516,12 +516,11 @@ def _translate_groups(cells, cell_data, field_data, flag):
     labels = {k: str(k) for k in groups.keys()}
     labels[0] = "None"
     if field_data:
+        # Names of the same dimension come first, as for Mesh.materials
+        materials = get_material_ids(field_data)
+        labels.update({v[0]: k for k, v in materials.items()})
         labels.update(
-            {
-                v[0]: k
-                for k, v in get_material_ids(field_data).items()
-                if v[1] == flag_to_numdim[flag]
-            }
+            {v[0]: k for k, v in materials.items() if v[1] == flag_to_numdim[flag]}
         )
 
     return groups, labels
-- 
2.43.0


From fd87a59c7a94f3374013245ab4e30c465d3f7c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:45 +0000
Subject: [PATCH 099/100] fix: keep the blanks of the names of FLAC3D groups

---
 toughio/_mesh/flac3d/_flac3d.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 5d95e69..1b49a04 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -163,8 +163,8 @@ def read_buffer(f, binary):
                 gidx += 1
     else:
         # Stop at the end of the file rather than at a blank line
-        for line in iter(f.readline, ""):
-            line = line.rstrip().split()
+        for text in iter(f.readline, ""):
+            line = text.rstrip().split()
             if not line:
                 continue
 
@@ -181,7 +181,7 @@ def read_buffer(f, binary):
                 cidx += 1
             elif line[0] in {"ZGROUP", "FGROUP"}:
                 flag = flags[line[0]]
-                name, slot, data = _read_group(f, binary, line)
+                name, slot, data = _read_group(f, binary, text)
                 field_data, mapper[flag] = _update_field_data(
                     field_data,
                     mapper[flag],
@@ -263,7 +263,9 @@ def _read_group(buf_or_line, binary, line=None):
         data = struct.unpack("<{}I".format(num_zones), buf_or_line.read(4 * num_zones))
     else:
         # Quoted names may contain spaces
-        name = " ".join(line).split('"')[1] if '"' in line[1] else line[1]
+        text = line
+        line = text.rstrip().split()
+        name = text.split('"')[1] if '"' in line[1] else line[1]
         data = []
         slot = "" if "SLOT" not in line else line[-1]
 
-- 
2.43.0


From 4214a268ea3a3265f73235ba6b02174ce0e6b6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:22 +0000
Subject: [PATCH 100/100] fix: take points that are given as a list

---
 toughio/_mesh/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index d22c4d6..cab3da6 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -681,7 +681,7 @@ class Mesh(object):
 
     @points.setter
     def points(self, value):
-        self._points = value
+        self._points = numpy.asarray(value)
 
     @property
     def cells(self):
-- 
2.43.0

