From a3ea9083475aaef653829708405328f1dc6cfad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 01/60] fix: keep // inside string literals when aligning and
 stripping comments

---
 tealish/__init__.py |  9 +++++----
 tealish/utils.py    | 12 ++++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index e230474..d48fdd2 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -2,7 +2,7 @@ import inspect
 from typing import List, Dict, Union, Tuple
 from .base import BaseNode
 from .nodes import Node, Program
-from .utils import TealishMap
+from .utils import TealishMap, split_comment
 from .types import _structs
 
 
@@ -33,8 +33,9 @@ class TealWriter:
             prefix = (" " * 4) * self.level
             teal = prefix + teal
             if " //" in teal.strip():
-                teal, comment = teal.split("//", 1)
-                teal = teal.ljust(60) + "//" + comment
+                code, comment = split_comment(teal)
+                if comment is not None:
+                    teal = code.ljust(60) + "//" + comment
             parent._teal.append(teal)
             self.output.append(teal)
             if hasattr(parent, "line_no"):
@@ -64,7 +65,7 @@ class OneLineTealWriter:
         elif isinstance(node_or_teal, list):
             self.teal += node_or_teal
         else:
-            teal = node_or_teal.split("//", 1)[0]
+            teal = split_comment(node_or_teal)[0]
             self.teal.append(teal)
 
     @property
diff --git a/tealish/utils.py b/tealish/utils.py
index 19d665c..2ec4351 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -1,6 +1,18 @@
+import re
 from typing import Dict, List, Tuple, Optional, Union, Any
 from algosdk.source_map import SourceMap
 
+_string_or_comment = re.compile(r'"(?:\\.|[^"\\])*"|//')
+
+
+def split_comment(line: str) -> Tuple[str, Optional[str]]:
+    """Split a line of TEAL into code and comment (None if there is no comment).
+    A // inside a string literal is not a comment."""
+    for match in _string_or_comment.finditer(line):
+        if match.group() == "//":
+            return line[: match.start()], line[match.end() :]
+    return line, None
+
 
 def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
     source_map: Dict[int, int] = {}
-- 
2.43.0


From fd51369ab59a7c9307ab63e8df7f6ac3dde75b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 02/60] fix: size and emit bytes literals by their TEAL value,
 not their source text

---
 tealish/expression_nodes.py | 11 +++++++----
 tealish/nodes.py            |  4 ++--
 tealish/utils.py            |  8 ++++++++
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 0e55aee..9957393 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -13,6 +13,7 @@ from .types import (
     UIntType,
 )
 from .langspec import Op, type_lookup
+from .utils import teal_string_size
 
 
 if TYPE_CHECKING:
@@ -37,14 +38,16 @@ class Integer(BaseNode):
 class Bytes(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
         self.value = value
-        self.type = BytesType(size=len(value))
+        # textX unescapes quotes (and only quotes)
+        self.literal = value.replace('"', '\\"')
+        self.type = BytesType(size=teal_string_size(self.literal))
         self.parent = parent
 
     def write_teal(self, writer: "TealWriter") -> None:
-        writer.write(self, f'pushbytes "{self.value}"')
+        writer.write(self, f'pushbytes "{self.literal}"')
 
     def _tealish(self) -> str:
-        return f'"{self.value}"'
+        return f'"{self.literal}"'
 
 
 class Variable(BaseNode):
@@ -298,7 +301,7 @@ class OpCall(BaseNode):
             elif hasattr(x, "value") and isinstance(x.type, IntType):
                 immediates[i] = x.value
             elif hasattr(x, "value") and isinstance(x.type, BytesType):
-                immediates[i] = f'"{x.value}"'
+                immediates[i] = f'"{x.literal}"'
             else:
                 raise CompileError(
                     f"{x} can not be used as an immediate argument for {op.name}",
diff --git a/tealish/nodes.py b/tealish/nodes.py
index fae3d51..d307579 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1,4 +1,3 @@
-import ast
 import re
 import textwrap
 from typing import (
@@ -31,6 +30,7 @@ from .types import (
     get_type_instance,
 )
 from .scope import Scope
+from .utils import teal_string_size
 
 LITERAL_INT = r"[0-9]+"
 LITERAL_BYTE_STRING = r'"(.+)"'
@@ -176,7 +176,7 @@ class LiteralBytes(Literal):
     value: str  # value contains quotes
 
     def type(self) -> AVMType:
-        return BytesType(size=len(ast.literal_eval(self.value)))
+        return BytesType(size=teal_string_size(self.value[1:-1]))
 
     def _tealish(self) -> str:
         return self.value
diff --git a/tealish/utils.py b/tealish/utils.py
index 2ec4351..5abe8e3 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -14,6 +14,14 @@ def split_comment(line: str) -> Tuple[str, Optional[str]]:
     return line, None
 
 
+def teal_string_size(body: str) -> int:
+    """Number of bytes of a TEAL string literal, given the text between its quotes"""
+    return sum(
+        1 if m.startswith("\\") else len(m.encode("utf-8"))
+        for m in re.findall(r"(?s)\\x[0-9a-fA-F]{2}|\\.|.", body)
+    )
+
+
 def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
     source_map: Dict[int, int] = {}
     n = 1
-- 
2.43.0


From c1fffd3dcc3322f6d8715988b632c0f157ca66eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 03/60] fix: router arguments of type uint64, bigint and addr

---
 tealish/nodes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index d307579..66b6865 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -822,13 +822,13 @@ class Route(Node):
         for i, (arg, type_name) in enumerate(self.func.args.args):
             a = i + 1
             arg_type = get_type_instance(type_name)
-            if type_name == "bytes":
+            if isinstance(arg_type, BytesType) and not arg_type.size:
                 line = f"Txn.ApplicationArgs[{a}]"
-            elif type_name == "int":
-                line = f"FromBytes(Txn.ApplicationArgs[{a}], {type_name})"
-            elif isinstance(arg_type, IntType) and arg_type.size != 8:
+            elif isinstance(arg_type, IntType) and arg_type.size == 8:
+                line = f"FromBytes(Txn.ApplicationArgs[{a}], int)"
+            elif isinstance(arg_type, IntType):
                 line = f"Cast(btoi(Txn.ApplicationArgs[{a}]), {type_name})"
-            elif isinstance(arg_type, BytesType):
+            else:
                 line = f"Cast(Txn.ApplicationArgs[{a}], {type_name})"
             expression = GenericExpression.parse(line, self, self.compiler)
             expression.process()
-- 
2.43.0


From 7fe242ec6fb51cc283062443f426beea375a40a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 04/60] fix: addr is 32 bytes long in structs, casts and
 assignments

---
 tealish/langspec.py | 16 ++++++++++++++++
 tealish/stdlib.py   |  2 +-
 tealish/types.py    |  7 ++++++-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/tealish/langspec.py b/tealish/langspec.py
index 45c0c3c..98861b9 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -95,7 +95,23 @@ def convert_args_to_types(args: str) -> List[TealishType]:
 field_types = {
     # TODO: Add more field type overrides here
     # TODO: Later hopefully read this from improved langspec json
+    # Fields that always hold an address
     "Sender": BytesType(size=32),
+    "Receiver": BytesType(size=32),
+    "CloseRemainderTo": BytesType(size=32),
+    "AssetSender": BytesType(size=32),
+    "AssetReceiver": BytesType(size=32),
+    "AssetCloseTo": BytesType(size=32),
+    "RekeyTo": BytesType(size=32),
+    "FreezeAssetAccount": BytesType(size=32),
+    "ConfigAssetManager": BytesType(size=32),
+    "ConfigAssetReserve": BytesType(size=32),
+    "ConfigAssetFreeze": BytesType(size=32),
+    "ConfigAssetClawback": BytesType(size=32),
+    "ZeroAddress": BytesType(size=32),
+    "CreatorAddress": BytesType(size=32),
+    "CurrentApplicationAddress": BytesType(size=32),
+    "CallerApplicationAddress": BytesType(size=32),
 }
 
 
diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 92dda3e..8551882 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -480,7 +480,7 @@ class Address(FunctionCall):
     def process(self) -> None:
         for arg in self.args:
             arg.process()
-        self.type = BytesType()
+        self.type = BytesType(32)
 
     def write_teal(self, writer: "TealWriter") -> None:
         value = self.args[0].value
diff --git a/tealish/types.py b/tealish/types.py
index 8981eb2..1bdc8f6 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -126,7 +126,12 @@ class BigIntType(BytesType):
 class AddrType(BytesType):
     name = "addr"
     avm_type = AVMType.bytes
-    size = 32
+
+    def __init__(self):
+        super().__init__(32)
+
+    def __str__(self) -> str:
+        return self.name
 
 
 class StructField:
-- 
2.43.0


From 829eae8a6b3d3634dafde10c78bb5693aaee02d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 05/60] fix: Convert(int, bytes[N]) asserts that the value fits
 in N bytes

---
 tealish/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 8551882..ab4491a 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -329,7 +329,7 @@ class UIntToBytesWrapper(BaseNode):
             writer.write(self, self.expression)
             writer.write(self, "itob")
         else:
-            writer.write(self, UIntSizeAssertionWrapper(self.expression, self.size * 8))
+            writer.write(self, UIntSizeAssertionWrapper(self.expression, self.size))
             writer.write(self, "itob")
             if self.size and self.size < 8:
                 writer.write(self, f"extract {8 - self.size} {self.size}")
-- 
2.43.0


From 48e8d9d56bfcaf64841c80655d1d30f2fc66b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 06/60] fix: Cast to bytes without a size does not assert an
 empty value

---
 tealish/stdlib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index ab4491a..1975314 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -264,6 +264,9 @@ class BytesSizeAssertionWrapper(BaseNode):
 
     def write_teal(self, writer):
         writer.write(self, self.expression)
+        if not self.size:
+            # bytes of any size
+            return
         # Assert that the expression is bytes of size N
         writer.write(
             self,
-- 
2.43.0


From d2b27e00af8bd18a9ea786a3758bd5471dc526b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 07/60] fix: Cast accepts values of type any, as documented

---
 tealish/stdlib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 1975314..a9abc27 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -140,11 +140,13 @@ class Cast(FunctionCall):
                 "Unncecessary use of cast. Types are known to be the same", node=self
             )
 
-        if isinstance(self.expression.type, IntType) and isinstance(self.type, IntType):
+        if isinstance(self.expression.type, (IntType, AnyType)) and isinstance(
+            self.type, IntType
+        ):
             # Int -> Int
             self.expression = UIntSizeAssertionWrapper(self.expression, self.type.size)
             self.expression.process()
-        elif isinstance(self.expression.type, BytesType) and isinstance(
+        elif isinstance(self.expression.type, (BytesType, AnyType)) and isinstance(
             self.type, BytesType
         ):
             self.expression = BytesSizeAssertionWrapper(self.expression, self.type.size)
-- 
2.43.0


From 70036f96e555298211e2cb4eef0fec9707505af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 08/60] fix: end of file inside a construct, comments after
 code and # inside strings

peek() and consume_line() disagreed on inline comments, a # inside a string
literal cut the line, and a missing end crashed with an AttributeError or
looped forever instead of raising a ParseError.
---
 tealish/__init__.py | 25 +++++++++++--------------
 tealish/nodes.py    |  2 +-
 tealish/utils.py    | 13 +++++++++++++
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index d48fdd2..761701f 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,8 +1,9 @@
 import inspect
 from typing import List, Dict, Union, Tuple
 from .base import BaseNode
+from .errors import ParseError
 from .nodes import Node, Program
-from .utils import TealishMap, split_comment
+from .utils import TealishMap, split_comment, strip_inline_comment
 from .types import _structs
 
 
@@ -90,24 +91,20 @@ class TealishCompiler:
         self.line_nodes = {}
         self.use_inner_txns_macro = None
 
+    def at_end(self) -> bool:
+        return self.line_no == len(self.source_lines)
+
     def consume_line(self) -> str:
-        if self.line_no == len(self.source_lines):
-            # TODO: this and the func below are Optional[str] but
-            # nodes.py uses them heavily and dont
-            # check the type is not None
-            return  # type: ignore
-        line = self.source_lines[self.line_no].strip()
-        # strip out inline comments
-        if not line.startswith("#"):
-            line = line.split("#")[0]
+        line = self.peek()
         self.line_no += 1
         return line
 
     def peek(self) -> str:
-        if self.line_no == len(self.source_lines):
-            # TODO: see above
-            return  # type: ignore
-        return self.source_lines[self.line_no].strip()
+        if self.at_end():
+            raise ParseError(
+                f"Unexpected end of program at line {self.line_no}. Missing end?"
+            )
+        return strip_inline_comment(self.source_lines[self.line_no].strip())
 
     def write(self, lines: Union[str, List[str]] = "", line_no: int = 0) -> None:
         prefix = "  " * self.level
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 66b6865..df07a00 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -276,7 +276,7 @@ class Program(Node):
         expect_struct_definition = True
         exit_statement = None
         while True:
-            if compiler.peek() is None:
+            if compiler.at_end():
                 break
             n = Statement.consume(compiler, node)
             if not expect_struct_definition and isinstance(n, StructDefinition):
diff --git a/tealish/utils.py b/tealish/utils.py
index 5abe8e3..4015ac5 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -14,6 +14,19 @@ def split_comment(line: str) -> Tuple[str, Optional[str]]:
     return line, None
 
 
+_quoted_or_hash = re.compile(r'''"(?:\\"|[^"])*"|'(?:\\'|[^'])*'|#''')
+
+
+def strip_inline_comment(line: str) -> str:
+    """Remove a # comment from the end of a line of Tealish.
+    A # inside a string literal is not a comment. Whole line comments are kept."""
+    if not line.startswith("#"):
+        for match in _quoted_or_hash.finditer(line):
+            if match.group() == "#":
+                return line[: match.start()].rstrip()
+    return line
+
+
 def teal_string_size(body: str) -> int:
     """Number of bytes of a TEAL string literal, given the text between its quotes"""
     return sum(
-- 
2.43.0


From 1d9ee7573ad7d5684a0c278796d76160e38c0998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 09/60] fix: inner_group emits the group macros it calls

InnerTxn.write_teal switched the inner transaction macros off, so a program with
an inner_group called labels that were never written.
---
 tealish/nodes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index df07a00..be58f36 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1043,7 +1043,6 @@ class InnerTxn(InlineStatement):
                 node.expression.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
-        self.compiler.use_inner_txns_macro = False
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
         if self.compiler.use_inner_txns_macro:
             writer.write(self, "callsub _itxn_begin")
-- 
2.43.0


From ff89ee552769e6dd929ca35e31b436c8c9f4ac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 10/60] fix: bodies end at a line that is end, not at any line
 starting with end

A statement such as endpoint = 1 made the parser loop forever inside an if and
ended an inner_group early. A blank line after a decorator also looped forever.
---
 tealish/nodes.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index be58f36..0e8b9c4 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1080,7 +1080,7 @@ class InnerGroup(InlineStatement):
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "InnerGroup":
         node = InnerGroup(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith("end"):
+            if compiler.peek() == "end":
                 compiler.consume_line()
                 break
             node.add_child(Statement.consume(compiler, node))
@@ -1125,7 +1125,7 @@ class IfThen(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "IfThen":
         node = IfThen("", parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith(("end", "elif", "else:")):
+            if is_if_boundary(compiler.peek()):
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -1165,7 +1165,7 @@ class Elif(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Elif":
         node = Elif(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith(("end", "elif", "else:")):
+            if is_if_boundary(compiler.peek()):
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -1208,7 +1208,7 @@ class Else(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Else":
         node = Else(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith("end"):
+            if is_if_boundary(compiler.peek()):
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -1278,9 +1278,13 @@ class IfStatement(InlineStatement):
             if compiler.peek() == "end":
                 compiler.consume_line()
                 break
+            elif if_statement.else_ is not None:
+                raise ParseError(
+                    f'Unexpected "{compiler.peek()}" after else at line {compiler.line_no + 1}!'
+                )
             elif compiler.peek().startswith("elif "):
                 if_statement.add_elif(Elif.consume(compiler, if_statement))
-            elif compiler.peek().startswith("else:"):
+            else:
                 if_statement.add_else(Else.consume(compiler, if_statement))
         return if_statement
 
@@ -1744,7 +1748,7 @@ class Decorator(Node):
 
 
 class DecoratedFunc(InlineStatement):
-    possible_child_nodes = [Decorator, Comment, Func]
+    possible_child_nodes = [Decorator, Comment, Blank, Func]
     pattern = r""
 
     def __init__(
@@ -1783,6 +1787,13 @@ class DecoratedFunc(InlineStatement):
                 break
             elif compiler.peek().startswith("@"):
                 decorated_func.add_decorator(Decorator.consume(compiler, parent))
+            else:
+                node = LineStatement.consume(compiler, decorated_func)
+                if not isinstance(node, (Comment, Blank)):
+                    raise ParseError(
+                        f"Expected a func after a decorator at line {compiler.line_no}!"
+                    )
+                decorated_func.add_child(node)
         return decorated_func
 
     def process(self) -> None:
@@ -1794,9 +1805,8 @@ class DecoratedFunc(InlineStatement):
 
     def _tealish(self) -> str:
         output = ""
-        for n in self.decorators:
+        for n in self.child_nodes:
             output += n.tealish()
-        output += self.func.tealish()
         return output
 
 
@@ -2058,6 +2068,10 @@ def indent(s: str) -> str:
     return textwrap.indent(s, "    ")
 
 
+def is_if_boundary(line: str) -> bool:
+    return line == "end" or line.startswith(("elif ", "else:"))
+
+
 def is_exit_statement(node):
     if isinstance(node, (Exit, Switch, Jump, Router)):
         return True
-- 
2.43.0


From 119807b4f1bc044dd7125166c4ff7579edbaf1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 11/60] fix: reject text that the elif, else, struct field,
 block header and func argument patterns dropped

func f(myArg: int) declared an argument named rg, elif x: foo() lost its statement.
---
 tealish/nodes.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 0e8b9c4..a070395 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -937,6 +937,7 @@ class TealLine(Node):
 
 class Teal(InlineStatement):
     possible_child_nodes = [TealLine]
+    pattern = r"teal:$"
 
     @classmethod
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Teal":
@@ -979,6 +980,7 @@ class InnerTxnFieldSetter(InlineStatement):
 
 class InnerTxn(InlineStatement):
     possible_child_nodes = [InnerTxnFieldSetter]
+    pattern = r"inner_txn:$"
 
     def __init__(
         self,
@@ -1071,6 +1073,7 @@ class InnerTxn(InlineStatement):
 
 class InnerGroup(InlineStatement):
     possible_child_nodes = [Statement]
+    pattern = r"inner_group:$"
 
     def __init__(self, line: str, parent: Node, compiler: "TealishCompiler") -> None:
         super().__init__(line, parent, compiler)
@@ -1150,7 +1153,7 @@ class IfThen(Node):
 
 class Elif(Node):
     possible_child_nodes = [InlineStatement]
-    pattern = r"elif ((?P<modifier>not) )?(?P<condition>.*):"
+    pattern = r"elif ((?P<modifier>not) )?(?P<condition>.*):$"
     condition: GenericExpression
     modifier: str
 
@@ -1195,7 +1198,7 @@ class Elif(Node):
 
 class Else(Node):
     possible_child_nodes = [InlineStatement]
-    pattern = r"else:"
+    pattern = r"else:$"
 
     def __init__(
         self, line: str, parent: Optional[Node], compiler: Optional["TealishCompiler"]
@@ -1588,8 +1591,8 @@ class For_Statement(InlineStatement):
 
 
 class ArgsList(Expression):
-    arg_pattern = r"(?P<arg_name>[a-z][a-z_0-9]*): (?P<arg_type>[a-zA-Z][A-Za-z_0-9<>]*(?:\[\d+\])?)"
-    pattern = rf"(?P<args>({arg_pattern}(, )?)*)"
+    arg_pattern = r"(?P<arg_name>[a-z][a-zA-Z_0-9]*): (?P<arg_type>[a-zA-Z][A-Za-z_0-9<>]*(?:\[\d+\])?)"
+    pattern = rf"(?P<args>({arg_pattern}(, ?|$))*)$"
     args: List[Tuple[str, TealishType]]
 
     def __init__(self, line: str) -> None:
@@ -1813,7 +1816,7 @@ class DecoratedFunc(InlineStatement):
 class StructFieldDefinition(InlineStatement):
     pattern = (
         r"(?P<field_name>[a-z][A-Z-a-z0-9_]*): "
-        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]+(\[\d+\])?)"
+        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]+(\[\d+\])?)$"
     )
     field_name: str
     data_type: str
-- 
2.43.0


From 95a0e9772992e4a08d711764f816883c75220c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 12/60] fix: names starting with return or break, and the line
 of return expressions

returned = 5 was parsed as a return statement. The expressions of a return are
children of the return, so that their TEAL maps to its line and not to the line
of the enclosing function.
---
 tealish/nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index a070395..fce8e9d 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -384,9 +384,9 @@ class LineStatement(InlineStatement):
             return Const(line, parent, compiler=compiler)
         elif line.startswith("jump "):
             return Jump(line, parent, compiler=compiler)
-        elif line.startswith("return"):
+        elif re.match(r"return\b", line):
             return Return(line, parent, compiler=compiler)
-        elif line.startswith("break"):
+        elif line == "break":
             return Break(line, parent, compiler=compiler)
         elif re.match(
             r"[A-Za-z][a-zA-Z_0-9]*(\[[0-9]+\])? [a-zA-Z_0-9]+( = .*)?", line
@@ -1705,7 +1705,7 @@ class Return(LineStatement):
             args = split_return_args(self.args)
             for a in args:
                 arg = a.strip()
-                node = GenericExpression.parse(arg, parent, compiler)
+                node = GenericExpression.parse(arg, self, compiler)
                 self.args_expressions.append(node)
         if len(self.args_expressions) != len(self.func.returns):
             raise ParseError(f"Incorrect number of returns. Line {self.line_no}")
-- 
2.43.0


From e61f43bdf2752ac5e3e1e63f14b65a38fafdf425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 13/60] fix: reject function definitions that execution would
 fall into

A func inside an if, a loop or before the return of another func was written in
place and its body executed without a callsub.
---
 tealish/nodes.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index fce8e9d..a120abc 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -683,13 +683,13 @@ class Block(Statement):
 
             n = Statement.consume(compiler, block)
             if exit_statement:
-                if not isinstance(n, (Func, Block, Comment, Blank)):
+                if not isinstance(n, (Func, DecoratedFunc, Block, Comment, Blank)):
                     raise ParseError(
                         f"Unexpected statement at line {n.line_no}."
                         + f" Only Block and Function definitions should occure after a {exit_statement}."
                     )
             else:
-                if isinstance(n, (Func, Block)):
+                if isinstance(n, (Func, DecoratedFunc, Block)):
                     raise ParseError(
                         f"Unexpected {n} definition at line {n.line_no}. "
                         + "Block and Function definitions must occur after an exit statement (e.g. exit, switch, jump)."
@@ -1640,13 +1640,25 @@ class Func(InlineStatement):
     @classmethod
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Func":
         func = Func(compiler.consume_line(), parent, compiler=compiler)
-
+        if not isinstance(parent, (Program, Block, DecoratedFunc, Func)):
+            raise ParseError(
+                f"Unexpected {func} definition in {parent} at line {func.line_no}!"
+            )
+        last_node = None
         while True:
             if compiler.peek() == "end":
                 compiler.consume_line()
                 break
-            func.add_child(InlineStatement.consume(compiler, func))
-        last_node = [n for n in func.nodes if type(n) not in {cls, Comment, Blank}][-1]
+            node = InlineStatement.consume(compiler, func)
+            if isinstance(node, (Func, DecoratedFunc)):
+                if not isinstance(last_node, Return):
+                    raise ParseError(
+                        f"Unexpected {node} definition at line {node.line_no}. "
+                        + "Nested functions must be defined after a return statement."
+                    )
+            elif not isinstance(node, (Comment, Blank)):
+                last_node = node
+            func.add_child(node)
         if type(last_node) != Return:
             raise ParseError(
                 f"func must end with a return statement at line {compiler.line_no}!"
@@ -1784,6 +1796,10 @@ class DecoratedFunc(InlineStatement):
         cls, compiler: "TealishCompiler", parent: Optional[Node]
     ) -> "DecoratedFunc":
         decorated_func = DecoratedFunc("", parent, compiler=compiler)
+        if not isinstance(parent, (Program, Block, Func)):
+            raise ParseError(
+                f"Unexpected {decorated_func} definition in {parent} at line {compiler.line_no}!"
+            )
         while True:
             if compiler.peek().startswith("func "):
                 decorated_func.set_func(Func.consume(compiler, decorated_func))
-- 
2.43.0


From 822b0c0861618b9abb0179a6fa43d44fe9fae02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 14/60] fix: report every compilation failure as a ParseError
 or CompileError

Unknown blocks, structs, fields and types, wrong arguments of built in functions
and errors raised while writing TEAL surfaced as KeyError, IndexError,
AttributeError or AssertionError, and reporting them could itself raise KeyError.
---
 tealish/__init__.py         | 45 +++++++++++++++++++++++++++++++------
 tealish/base.py             |  5 ++++-
 tealish/expression_nodes.py | 11 ++++++++-
 tealish/nodes.py            |  4 ++++
 tealish/types.py            |  2 ++
 5 files changed, 58 insertions(+), 9 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 761701f..48db937 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,7 +1,7 @@
 import inspect
-from typing import List, Dict, Union, Tuple
+from typing import List, Dict, Optional, Union, Tuple
 from .base import BaseNode
-from .errors import ParseError
+from .errors import CompileError, ParseError
 from .nodes import Node, Program
 from .utils import TealishMap, split_comment, strip_inline_comment
 from .types import _structs
@@ -74,6 +74,24 @@ class OneLineTealWriter:
         return "; ".join(self.teal)
 
 
+def describe_error(e: Exception) -> str:
+    # str() of a KeyError is the repr of its argument
+    return str(e.args[0]) if isinstance(e, KeyError) and e.args else str(e)
+
+
+def failing_node() -> Optional[BaseNode]:
+    """The innermost node with a line that was executing when the current exception was raised"""
+    for frame_info in reversed(inspect.trace()):
+        node = frame_info.frame.f_locals.get("self")
+        if isinstance(node, BaseNode):
+            try:
+                node.line_no
+            except Exception:
+                continue
+            return node
+    return None
+
+
 class TealishCompiler:
     def __init__(self, source_lines: List[str]) -> None:
         self.source_lines = source_lines
@@ -117,7 +135,12 @@ class TealishCompiler:
             self.current_output_line += 1
 
     def parse(self) -> None:
-        node = Program.consume(self, None)
+        try:
+            node = Program.consume(self, None)
+        except (ParseError, CompileError):
+            raise
+        except Exception as e:
+            raise ParseError(f"{describe_error(e)} at line {self.line_no}") from e
         self.nodes.append(node)
 
     def process(self) -> None:
@@ -125,9 +148,12 @@ class TealishCompiler:
             try:
                 node.process()
             except Exception as e:
-                node = inspect.trace()[-1].frame.f_locals['self']
-                print(node.line_no, node.line)
-                raise e
+                node = failing_node()
+                if node is not None:
+                    print(node.line_no, node.line)
+                if isinstance(e, (ParseError, CompileError)):
+                    raise
+                raise CompileError(describe_error(e), node=node) from e
         self.processed = True
 
     def compile(self) -> List[str]:
@@ -136,7 +162,12 @@ class TealishCompiler:
         if not self.processed:
             self.process()
         for node in self.nodes:
-            node.write_teal(self.writer)
+            try:
+                node.write_teal(self.writer)
+            except (ParseError, CompileError):
+                raise
+            except Exception as e:
+                raise CompileError(describe_error(e), node=failing_node()) from e
         self.source_map = self.writer.source_map
         self.output = self.writer.output
         return self.writer.output
diff --git a/tealish/base.py b/tealish/base.py
index 485007b..f02698a 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -108,7 +108,10 @@ class BaseNode:
         return blocks
 
     def get_block(self, name: str) -> "Block":
-        return self.get_blocks()[name]
+        blocks = self.get_blocks()
+        if name not in blocks:
+            raise CompileError(f'Block "{name}" not declared in scope', node=self)
+        return blocks[name]
 
     def is_descendant_of(self, node_class: type) -> bool:
         return self.find_parent(node_class) is not None
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 9957393..c7b4e01 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -574,9 +574,18 @@ class StructOrBoxField(BaseNode):
         self.parent = parent
 
     def process(self) -> None:
-        self.var = self.lookup_var(self.name)
+        try:
+            self.var = self.lookup_var(self.name)
+        except KeyError as e:
+            raise CompileError(e.args[0], node=self)
         self.object_type = self.var.tealish_type
         struct = self.var.tealish_type
+        if not isinstance(struct, (StructType, BoxType)):
+            raise CompileError(f"{self.name} is not a struct or Box", node=self)
+        if self.field not in struct.fields:
+            raise CompileError(
+                f'Unknown field "{self.field}" of {self.name}', node=self
+            )
         struct_field = struct.fields[self.field]
         self.offset = struct_field.offset
         self.size = struct_field.size
diff --git a/tealish/nodes.py b/tealish/nodes.py
index a120abc..a2ec3cc 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1935,6 +1935,10 @@ class StructOrBoxAssignment(LineStatement):
         self.object_type = self.var.tealish_type
 
         struct = self.var.tealish_type
+        if self.field_name not in struct.fields:
+            raise CompileError(
+                f'Unknown field "{self.field_name}" of {self.name.value}', node=self
+            )
         struct_field = struct.fields[self.field_name]
         self.offset = struct_field.offset
         self.size = struct_field.size
diff --git a/tealish/types.py b/tealish/types.py
index 1bdc8f6..415764c 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -199,6 +199,8 @@ def define_struct(struct: StructType) -> None:
 
 
 def get_struct(struct_name: str) -> StructType:
+    if struct_name not in _structs:
+        raise KeyError(f"Unknown type {struct_name}")
     return _structs[struct_name]
 
 
-- 
2.43.0


From 35a0fb7ca3253fb4fa83cbbfd31eb275041dc3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 15/60] fix: size of the literal 0, ints over 64 bits and
 constants as sizes

uint8 x = 0 was rejected, 18446744073709551616 was emitted as an invalid pushint
and an int const passed to bzero, Rpad, Lpad or ToBytes gave a type whose size is a str.
---
 tealish/expression_nodes.py |  4 +++-
 tealish/nodes.py            |  7 ++++++-
 tealish/stdlib.py           | 18 ++++++++++++++----
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index c7b4e01..39c88f2 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -24,7 +24,9 @@ if TYPE_CHECKING:
 class Integer(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
         self.value = int(value)
-        size = (((self.value).bit_length() - 1) // 8) + 1
+        if self.value >= 2**64:
+            raise CompileError(f"{value} does not fit in 64 bits")
+        size = max(1, (self.value.bit_length() + 7) // 8)
         self.type = UIntType(size)
         self.parent = parent
 
diff --git a/tealish/nodes.py b/tealish/nodes.py
index a2ec3cc..9e01209 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -461,7 +461,12 @@ class Const(LineStatement):
                 f"Incorrect type {self.literal.type()} for const {tealish_type}",
                 node=self,
             )
-        scope.declare_const(self.name, (self.literal.type(), self.literal.value))
+        value = self.literal.value
+        if isinstance(self.literal, LiteralInt):
+            value = int(value)
+            if value >= 2**64:
+                raise CompileError(f"{value} does not fit in 64 bits", node=self)
+        scope.declare_const(self.name, (self.literal.type(), value))
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"#define {self.name} {self.literal.value}")
diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index a9abc27..0526397 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -16,6 +16,15 @@ from tealish.types import (
 )
 
 
+def constant_int(arg: "Node") -> int:
+    """Value of an argument that has to be an int known at compile time"""
+    arg.process()
+    value = getattr(arg, "value", None)
+    if not isinstance(value, int):
+        raise CompileError(f"{arg.tealish()} is not a constant int", node=arg)
+    return value
+
+
 class FunctionCall(BaseNode):
     def __init__(self, args: List["Node"], parent: Optional[BaseNode] = None) -> None:
         self.args = args
@@ -73,7 +82,8 @@ class Bzero(FunctionCall):
         arg = self.args[0]
         arg.process()
         # Integer literals and some other functions set value to a constant at compile time
-        if hasattr(arg, "value"):
+        self.check_arg_types(self.name, self.args)
+        if isinstance(getattr(arg, "value", None), int):
             self.type = BytesType(arg.value)
         else:
             self.type = BytesType()
@@ -166,7 +176,7 @@ class ToBytes(FunctionCall):
     def process(self) -> None:
         self.args[0].process()
         self.expression = self.args[0]
-        size = self.args[1].value
+        size = constant_int(self.args[1])
         self.type = BytesType(size)
         if not isinstance(self.expression.type, (IntType, BigIntType)):
             raise CompileError(
@@ -407,7 +417,7 @@ class Rpad(FunctionCall):
     def process(self) -> None:
         self.args[0].process()
         self.expression = self.args[0]
-        self.size = self.args[1].value
+        self.size = constant_int(self.args[1])
         self.type = BytesType(self.size)
 
         if not isinstance(self.expression.type, (BytesType,)):
@@ -438,7 +448,7 @@ class Lpad(FunctionCall):
     def process(self) -> None:
         self.args[0].process()
         self.expression = self.args[0]
-        self.size = self.args[1].value
+        self.size = constant_int(self.args[1])
         self.type = BytesType(self.size)
 
         if not isinstance(self.expression.type, (BytesType,)):
-- 
2.43.0


From ad12c52df88262d360b978bbd752040ca625a0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 16/60] fix: formatter output that changed or lost parts of the
 program

box<Foo> b = Box(key) became NoneBox(key), struct return types were printed with
their size, several immediate arguments ran together and comments inside
inner_txn and struct disappeared.
---
 tealish/expression_nodes.py |  4 +---
 tealish/nodes.py            | 31 +++++++++++++++++--------------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 39c88f2..b8432a7 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -322,9 +322,7 @@ class OpCall(BaseNode):
             writer.write(self, f"{self.name}")
 
     def _tealish(self) -> str:
-        args = [a.tealish() for a in self.args]
-        if self.immediate_args:
-            args = self.immediate_args.split(", ") + args
+        args = [a.tealish() for a in self.nodes]
         return f"{self.name}({', '.join(args)})"
 
 
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 9e01209..b848531 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -984,7 +984,7 @@ class InnerTxnFieldSetter(InlineStatement):
 
 
 class InnerTxn(InlineStatement):
-    possible_child_nodes = [InnerTxnFieldSetter]
+    possible_child_nodes = [InnerTxnFieldSetter, Comment]
     pattern = r"inner_txn:$"
 
     def __init__(
@@ -1005,7 +1005,7 @@ class InnerTxn(InlineStatement):
                 compiler.consume_line()
                 break
             elif compiler.peek().startswith("#"):
-                compiler.consume_line()
+                node.add_child(Comment.consume(compiler, node))
             else:
                 node.add_child(
                     InnerTxnFieldSetter(
@@ -1019,12 +1019,15 @@ class InnerTxn(InlineStatement):
             node.group = group
         return node
 
+    @property
+    def fields(self) -> List[InnerTxnFieldSetter]:
+        return [n for n in self.child_nodes if isinstance(n, InnerTxnFieldSetter)]
+
     def process(self) -> None:
         from collections import defaultdict
 
         self.array_fields: Dict[str, List[InnerTxnFieldSetter]] = defaultdict(list)
-        for node in self.child_nodes:
-            node = cast(InnerTxnFieldSetter, node)
+        for node in self.fields:
             if node.index is not None:
                 index = int(node.index)
                 n = len(self.array_fields[node.field_name])
@@ -1054,7 +1057,7 @@ class InnerTxn(InlineStatement):
         if self.compiler.use_inner_txns_macro:
             writer.write(self, "callsub _itxn_begin")
             writer.level += 1
-            for node in self.child_nodes:
+            for node in self.fields:
                 writer.write(self, node)
             writer.level -= 1
             writer.write(self, "callsub _itxn_submit")
@@ -1062,7 +1065,7 @@ class InnerTxn(InlineStatement):
         else:
             writer.write(self, "itxn_begin")
             writer.level += 1
-            for node in self.child_nodes:
+            for node in self.fields:
                 writer.write(self, node)
             writer.level -= 1
             writer.write(self, "itxn_submit")
@@ -1071,7 +1074,7 @@ class InnerTxn(InlineStatement):
     def _tealish(self) -> str:
         output = "inner_txn:\n"
         for n in self.child_nodes:
-            output += indent(n.tealish()) + "\n"
+            output += indent(n.tealish().rstrip("\n")) + "\n"
         output += "end\n"
         return output
 
@@ -1690,9 +1693,7 @@ class Func(InlineStatement):
         writer.level -= 1
 
     def _tealish(self) -> str:
-        returns = (
-            (" " + (", ".join(str(r) for r in self.returns))) if self.returns else ""
-        )
+        returns = " " + ", ".join(self.return_type.split(",")) if self.returns else ""
         output = f"func {self.name}({self.args.tealish()}){returns}:\n"
         for n in self.child_nodes:
             output += indent(n.tealish())
@@ -1865,7 +1866,7 @@ class StructDefinition(InlineStatement):
     end
     """
 
-    possible_child_nodes = [StructFieldDefinition]
+    possible_child_nodes = [StructFieldDefinition, Comment]
     pattern = r"struct (?P<name>[A-Z][a-zA-Z_0-9]*):$"
     name: str
     struct: StructType
@@ -1886,7 +1887,7 @@ class StructDefinition(InlineStatement):
                 compiler.consume_line()
                 break
             elif compiler.peek().startswith("#"):
-                compiler.consume_line()
+                node.add_child(Comment.consume(compiler, node))
             else:
                 node.add_child(
                     StructFieldDefinition(
@@ -1896,6 +1897,8 @@ class StructDefinition(InlineStatement):
 
         node.struct = StructType(node.name)
         for field in node.child_nodes:
+            if isinstance(field, Comment):
+                continue
             field_node = cast(StructFieldDefinition, field)
             node.struct.add_field(
                 field_node.field_name, get_type_instance(field_node.data_type)
@@ -1914,7 +1917,7 @@ class StructDefinition(InlineStatement):
     def _tealish(self) -> str:
         output = f"struct {self.name}:\n"
         for n in self.child_nodes:
-            output += indent(n.tealish()) + "\n"
+            output += indent(n.tealish().rstrip("\n")) + "\n"
         output += "end\n"
         return output
 
@@ -2071,7 +2074,7 @@ class BoxDeclaration(LineStatement):
     def _tealish(self):
         s = (
             f"box<{self.struct_name}> {self.name.tealish()} = "
-            f"{self.method}Box({self.key.tealish()})"
+            f"{self.method or ''}Box({self.key.tealish()})"
         )
         return s + "\n"
 
-- 
2.43.0


From 03f79de70a0023c70426601912b79584233135f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 17/60] fix: struct fields beyond 255 bytes

The offset and size of extract and replace are single bytes.
---
 tealish/expression_nodes.py | 10 ++++++----
 tealish/nodes.py            |  9 ++++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index b8432a7..0d9e41d 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -594,10 +594,12 @@ class StructOrBoxField(BaseNode):
     def write_teal(self, writer: "TealWriter") -> None:
         teal = ""
         if isinstance(self.object_type, StructType):
-            teal = [
-                f"load {self.var.scratch_slot}",
-                f"extract {self.offset} {self.size}",
-            ]
+            teal = [f"load {self.var.scratch_slot}"]
+            if self.offset < 256 and self.size < 256:
+                teal += [f"extract {self.offset} {self.size}"]
+            else:
+                # the offset or the size does not fit in an immediate argument
+                teal += [f"pushint {self.offset}", f"pushint {self.size}", "extract3"]
         elif isinstance(self.object_type, BoxType):
             teal = [
                 f"load {self.var.scratch_slot}",
diff --git a/tealish/nodes.py b/tealish/nodes.py
index b848531..58bb2cd 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1982,10 +1982,13 @@ class StructOrBoxAssignment(LineStatement):
                         f"extract {8 - self.data_type.size} {self.data_type.size}"
                     )
             # struct setter one liner
+            teal += [f"load {self.var.scratch_slot}"]
+            if self.offset < 256:
+                teal += ["swap", f"replace {self.offset}"]
+            else:
+                # the offset does not fit in an immediate argument
+                teal += [f"pushint {self.offset}", "uncover 2", "replace3"]
             teal += [
-                f"load {self.var.scratch_slot}",
-                "swap",
-                f"replace {self.offset}",
                 f"store {self.var.scratch_slot}",
                 f"// set {self.name.value}.{self.field_name}",
             ]
-- 
2.43.0


From 7aea3b7597c3eb7df0c8164c988ac15385385912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 18/60] fix: EnsureType checks each of several values

The size assertion of every value was made on the first one.
---
 tealish/stdlib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 0526397..ad3d334 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -246,7 +246,7 @@ class TypeAssertionWrapper(BaseNode):
             ):
                 if self.dup:
                     # If this has a return type duplicate the value so there is something left to return
-                    writer.write(self, "dup")
+                    writer.write(self, f"dig {i}" if i else "dup")
                 # Assert that the expression is bytes of size N
                 writer.write(self, f"// {type} Type Assertion")
                 writer.write(self, "len")
@@ -256,9 +256,9 @@ class TypeAssertionWrapper(BaseNode):
             elif (
                 isinstance(type, UIntType) and type.size != self.incoming_types[i].size
             ):
-                if self.type:
+                if self.dup:
                     # If this has a return type duplicate the value so there is something left to return
-                    writer.write(self, "dup")
+                    writer.write(self, f"dig {i}" if i else "dup")
                 # Assert that the expression is an int of N*8 bits
                 writer.write(self, f"// {type} Type Assertion")
                 writer.write(self, "bitlen")
-- 
2.43.0


From f0687f16670724bd52b1cfa38f081e7a0ead8b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 19/60] fix: structs of one compilation do not leak into the
 next

The struct definitions were kept in a module wide dict: a program that uses an
undefined struct compiled after one that defines it.
---
 tealish/__init__.py | 8 ++++++--
 tealish/types.py    | 8 +++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 48db937..3f76a44 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -4,7 +4,7 @@ from .base import BaseNode
 from .errors import CompileError, ParseError
 from .nodes import Node, Program
 from .utils import TealishMap, split_comment, strip_inline_comment
-from .types import _structs
+from .types import StructType, use_structs
 
 
 class TealWriter:
@@ -108,6 +108,7 @@ class TealishCompiler:
         self.processed = False
         self.line_nodes = {}
         self.use_inner_txns_macro = None
+        self.structs: Dict[str, StructType] = {}
 
     def at_end(self) -> bool:
         return self.line_no == len(self.source_lines)
@@ -135,6 +136,7 @@ class TealishCompiler:
             self.current_output_line += 1
 
     def parse(self) -> None:
+        use_structs(self.structs)
         try:
             node = Program.consume(self, None)
         except (ParseError, CompileError):
@@ -144,6 +146,7 @@ class TealishCompiler:
         self.nodes.append(node)
 
     def process(self) -> None:
+        use_structs(self.structs)
         for node in self.nodes:
             try:
                 node.process()
@@ -161,6 +164,7 @@ class TealishCompiler:
             self.parse()
         if not self.processed:
             self.process()
+        use_structs(self.structs)
         for node in self.nodes:
             try:
                 node.write_teal(self.writer)
@@ -186,7 +190,7 @@ class TealishCompiler:
         return map
 
     def get_structs(self):
-        return dict(_structs)
+        return dict(self.structs)
 
 
 def compile_program(source: str) -> Tuple[List[str], TealishMap]:
diff --git a/tealish/types.py b/tealish/types.py
index 415764c..b3632f1 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -3,10 +3,16 @@ import re
 from typing import Dict
 
 
-# Set of custom defined types
+# Set of custom defined types of the program being compiled
 _structs: Dict[str, "StructType"] = {}
 
 
+def use_structs(structs: Dict[str, "StructType"]) -> None:
+    """Make the structs of one program the current ones"""
+    global _structs
+    _structs = structs
+
+
 class AVMType(str, Enum):
     """AVMType enum represents the possible types an opcode accepts or returns"""
 
-- 
2.43.0


From 5142f6db279fc079765e79b71e84a3a2280d6cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 20/60] fix: variables of a block do not share slots with a
 function defined before it

A block that called such a function lost its variables. Slots above 255 are
rejected instead of written.
---
 tealish/__init__.py |  3 ++-
 tealish/base.py     | 12 +++++++++---
 tealish/scope.py    | 15 +++++++++++----
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 3f76a44..4263673 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,5 +1,5 @@
 import inspect
-from typing import List, Dict, Optional, Union, Tuple
+from typing import List, Dict, Optional, Set, Tuple, Union
 from .base import BaseNode
 from .errors import CompileError, ParseError
 from .nodes import Node, Program
@@ -104,6 +104,7 @@ class TealishCompiler:
         self.conditional_count = 0
         self.error_messages: Dict[int, str] = {}
         self.max_slot = 0
+        self.func_slots: Set[int] = set()
         self.writer = TealWriter()
         self.processed = False
         self.line_nodes = {}
diff --git a/tealish/base.py b/tealish/base.py
index f02698a..a9577ec 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -79,22 +79,28 @@ class BaseNode:
         # but i'm not sure why...
         scope.update(self.get_scope())
 
+        compiler = self.compiler  # type: ignore
         max_slot: Optional[int] = None
 
         if "func__" in scope.name:
             # If this var is declared in a function then use the global max slot + 1
             # This is to prevent functions using overlapping slots
-            max_slot = self.parent.compiler.max_slot + 1  # type: ignore
+            max_slot = compiler.max_slot + 1
 
         try:
             type = get_type_instance(type_name)
         except KeyError:
             raise CompileError(f'Unknown type "{type_name}"', node=self)
 
-        var = scope.declare_scratch_var(name, type, max_slot=max_slot)
+        var = scope.declare_scratch_var(
+            name, type, max_slot=max_slot, reserved_slots=compiler.func_slots
+        )
+        if max_slot is not None:
+            # Variables declared after this function must not use its slots
+            compiler.func_slots.add(max_slot)
 
         # Update max_slot on compiler
-        self.compiler.max_slot = max(self.compiler.max_slot, var.scratch_slot)  # type: ignore
+        compiler.max_slot = max(compiler.max_slot, var.scratch_slot)
 
         return var
 
diff --git a/tealish/scope.py b/tealish/scope.py
index 3220150..06cb977 100644
--- a/tealish/scope.py
+++ b/tealish/scope.py
@@ -1,4 +1,4 @@
-from typing import Dict, Optional, Tuple, TYPE_CHECKING
+from typing import Collection, Dict, Optional, Tuple, TYPE_CHECKING
 from .tealish_builtins import Var, ConstValue
 from .types import TealishType
 
@@ -41,13 +41,18 @@ class Scope:
         name: str,
         type: "TealishType",
         max_slot: Optional[int] = None,
+        reserved_slots: Collection[int] = (),
     ) -> Var:
         if name in self.slots:
             raise Exception(f'Redefinition of variable "{name}"')
 
         var = Var(name, type)
         var.slot_type = "scratch"
-        var.scratch_slot = max_slot if max_slot is not None else self.find_slot()
+        var.scratch_slot = (
+            max_slot if max_slot is not None else self.find_slot(reserved_slots)
+        )
+        if var.scratch_slot > 255:
+            raise Exception("No available slots!")
         self.slots[var.name] = var
         return var
 
@@ -73,10 +78,12 @@ class Scope:
     def declare_block(self, name: str, block: "Block") -> None:
         self.blocks[name] = block
 
-    def find_slot(self) -> int:
-        used_slots = [False] * 255
+    def find_slot(self, reserved_slots: Collection[int] = ()) -> int:
+        used_slots = [False] * 256
         for var in self.slots.values():
             used_slots[var.scratch_slot] = True
+        for slot in reserved_slots:
+            used_slots[slot] = True
 
         min, max = self.slot_range
         for i, occupied in enumerate(used_slots):
-- 
2.43.0


From c4af8e5b7e29f90793063ec4856d7862b587b552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 21/60] fix: minify replaces labels only in branches and keeps
 string literals

Only the last of several merged labels in a line was replaced, labels were replaced
inside other words and strings, and a // in a string literal cut the line.
---
 tealish/utils.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/tealish/utils.py b/tealish/utils.py
index 4015ac5..3337e51 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -35,6 +35,27 @@ def teal_string_size(body: str) -> int:
     )
 
 
+_teal_token = re.compile(r'"(?:\\.|[^"\\])*"|;|\s+|[^\s;"]+|"')
+_branch_ops = {"b", "bz", "bnz", "callsub", "switch", "match"}
+
+
+def replace_labels(line: str, replacements: Dict[str, str]) -> str:
+    """Replace the labels that a line of TEAL branches to"""
+    code = split_comment(line)[0]
+    output = ""
+    branch = None
+    for token in _teal_token.findall(code):
+        if token == ";":
+            branch = None
+        elif branch:
+            token = replacements.get(token, token)
+        elif branch is None and not (token.isspace() or token.endswith(":")):
+            # first word of a statement
+            branch = token in _branch_ops
+        output += token
+    return output + line[len(code) :]
+
+
 def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
     source_map: Dict[int, int] = {}
     n = 1
@@ -46,8 +67,9 @@ def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
         i = i + 1
         line = line.strip()
         if not (not line or line.startswith("//")):
-            if line.split("//")[0].strip().endswith(":"):
-                label = line.split("//")[0].strip()[:-1]
+            code = split_comment(line)[0].strip()
+            if code.endswith(":"):
+                label = code[:-1]
                 # duplicate labels get compressed into 1
                 if previous_line_is_label:
                     label_replacements[label] = previous_label
@@ -61,9 +83,7 @@ def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
             output.append(line)
     source_map[n] = len(teal_lines) - 1
     for i, line in enumerate(output):
-        for k in label_replacements:
-            if k in line:
-                output[i] = line.replace(k, label_replacements[k])
+        output[i] = replace_labels(line, label_replacements)
     return output, source_map
 
 
@@ -72,7 +92,7 @@ def strip_comments(teal_lines: List[str]) -> List[str]:
     for line in teal_lines:
         line = line.strip()
         if not (not line or line.startswith("//")):
-            line = line.split("//")[0].strip()
+            line = split_comment(line)[0].strip()
             output.append(line)
     return output
 
-- 
2.43.0


From bec8a8dff74b9f7af62b101ce1d3af042c61692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 22/60] fix: calls without a value or with several values are
 not operands of type any

---
 tealish/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tealish/types.py b/tealish/types.py
index b3632f1..43e74fc 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -51,7 +51,8 @@ class AnyType(TealishType):
     avm_type = AVMType.any
 
     def can_hold(self, other):
-        return True
+        # A call that returns no value or several values is not a value
+        return isinstance(other, TealishType)
 
 
 class IntType(TealishType):
-- 
2.43.0


From c8124503ac0eafc345af5b63d24155ac30b82a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 23/60] fix: a box variable is not bytes of the size of its
 struct

The value of a box variable is the key of the box, it was accepted where bytes of
the size of the struct are expected and such bytes were accepted as a box.
---
 tealish/types.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tealish/types.py b/tealish/types.py
index 43e74fc..2476932 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -108,7 +108,8 @@ class BytesType(TealishType):
         if isinstance(other, BytesType):
             if not self.size:
                 return True
-            if not other.size:
+            if not other.size or isinstance(other, BoxType):
+                # The value of a box variable is the box key, of any size
                 return False
             if self.size == other.size:
                 return True
@@ -175,7 +176,7 @@ class StructType(BytesType):
 
     def can_hold(self, other):
         if isinstance(other, BytesType):
-            if not other.size:
+            if not other.size or isinstance(other, BoxType):
                 return False
             if self.size == other.size:
                 return True
@@ -191,6 +192,9 @@ class BoxType(BytesType):
         self.fields = self.struct.fields
         self.size = self.struct.size
 
+    def can_hold(self, other):
+        return isinstance(other, BoxType) and other.struct_name == self.struct_name
+
 
 class ArrayType(BytesType):
     name = "array"
-- 
2.43.0


From f3d1797980da68dae7700c5471b728e380ab9320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 24/60] fix: Itxn array fields

The grammar accepts Itxn.Logs[0] but no class compiled it.
---
 tealish/expression_nodes.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 0d9e41d..40e679a 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -566,6 +566,36 @@ class InnerTxnField(BaseNode):
         return f"Itxn.{self.field}"
 
 
+class InnerTxnArrayField(BaseNode):
+    def __init__(
+        self,
+        field: str,
+        arrayIndex: "Node",
+        parent: Optional[BaseNode] = None,
+    ) -> None:
+        self.field = field
+        self.arrayIndex = arrayIndex
+        self.type = AVMType.any
+        self.parent = parent
+
+    def process(self) -> None:
+        self.type = self.get_field_type("txn", self.field)
+        if not isinstance(self.arrayIndex, Integer):
+            # index is an expression that needs to be evaluated
+            self.arrayIndex.process()
+
+    def write_teal(self, writer: "TealWriter") -> None:
+        if not isinstance(self.arrayIndex, Integer):
+            writer.write(self, self.arrayIndex)
+            writer.write(self, f"itxnas {self.field}")
+        else:
+            # index is a constant
+            writer.write(self, f"itxna {self.field} {self.arrayIndex.value}")
+
+    def _tealish(self) -> str:
+        return f"Itxn.{self.field}[{self.arrayIndex.tealish()}]"
+
+
 class StructOrBoxField(BaseNode):
     def __init__(self, name, field, parent=None) -> None:
         self.name = name
@@ -639,6 +669,7 @@ def class_provider(name: str) -> Optional[type]:
         "NegativeGroupIndex": NegativeGroupIndex,
         "GlobalField": GlobalField,
         "InnerTxnField": InnerTxnField,
+        "InnerTxnArrayField": InnerTxnArrayField,
         "StructOrBoxField": StructOrBoxField,
     }
     return classes.get(name)
-- 
2.43.0


From 7034a6fb3823c4eb37387a2aadb895e6989c5d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:55 +0000
Subject: [PATCH 25/60] fix: the bitwise and operator could not be used in
 expressions

---
 tealish/tealish_expressions.tx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 2a21431..1fd0a34 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -7,7 +7,7 @@ BinaryOp: a=Value op=BinaryOperator b=Value;
 BinaryOperator: '+' | '-' | '*' | '/' | '%'
     | '==' | '>=' | '<=' | '>' | '<' | '!='
     | '&&' | '||'
-    | '|' | '%' | '^'
+    | '|' | '%' | '^' | '&'
     | 'b+' | 'b-' | 'b/' | 'b*' | 'b%'
     | 'b==' | 'b!=' | 'b>=' | 'b<=' | 'b>' | 'b<'
     | 'b|' | 'b&' | 'b^';
-- 
2.43.0


From 968f02759c32d75e680e70d50e262c3a33d07c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 26/60] fix: definitions of inner scopes were hidden by equally
 named outer ones

---
 tealish/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index a9577ec..f1aac5e 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -45,7 +45,8 @@ class BaseNode:
 
     def get_scope(self) -> Scope:
         scope = Scope()
-        for s in self.get_scopes():
+        # definitions of inner scopes take precedence
+        for s in reversed(self.get_scopes()):
             scope.update(s)
         return scope
 
@@ -62,7 +63,7 @@ class BaseNode:
 
     def get_slots(self) -> Dict[str, Any]:
         slots = {}
-        for s in self.get_scopes():
+        for s in reversed(self.get_scopes()):
             slots.update(s.slots)
         return slots
 
@@ -109,7 +110,7 @@ class BaseNode:
 
     def get_blocks(self) -> Dict[str, "Block"]:
         blocks = {}
-        for s in self.get_scopes():
+        for s in reversed(self.get_scopes()):
             blocks.update(s.blocks)
         return blocks
 
-- 
2.43.0


From 2960e9ba7c0ac4eefbdde6b6e97beb189d945882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 27/60] fix: redefined constants had the value of the last
 definition everywhere

---
 tealish/nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 58bb2cd..40d6823 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -466,6 +466,10 @@ class Const(LineStatement):
             value = int(value)
             if value >= 2**64:
                 raise CompileError(f"{value} does not fit in 64 bits", node=self)
+        # the TEAL #define holds until the end of the program, also outside this scope
+        _, defined = self.get_scope().consts.get(self.name, (None, value))
+        if defined != value:
+            raise CompileError(f'Redefinition of constant "{self.name}"', node=self)
         scope.declare_const(self.name, (self.literal.type(), value))
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From c5c49bf65dbb874a2034209943baa8c0491e06fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 28/60] fix: the map of a compilation had no TEAL lines for
 Tealish lines

---
 tealish/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 4263673..e0afccd 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -185,10 +185,12 @@ class TealishCompiler:
         return self.nodes[0].tealish()
 
     def get_map(self) -> TealishMap:
-        map = TealishMap()
-        map.teal_tealish = dict(self.source_map)
-        map.errors = dict(self.error_messages)
-        return map
+        return TealishMap(
+            {
+                "teal_tealish": dict(self.source_map),
+                "errors": dict(self.error_messages),
+            }
+        )
 
     def get_structs(self):
         return dict(self.structs)
-- 
2.43.0


From b294e4d6481fefe05a3c2ab3c7d3e277d5183cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 29/60] fix: definitions that give the same TEAL label were
 accepted

---
 tealish/__init__.py | 14 +++++++++++++-
 tealish/utils.py    | 15 +++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index e0afccd..1500502 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -3,7 +3,7 @@ from typing import List, Dict, Optional, Set, Tuple, Union
 from .base import BaseNode
 from .errors import CompileError, ParseError
 from .nodes import Node, Program
-from .utils import TealishMap, split_comment, strip_inline_comment
+from .utils import TealishMap, find_labels, split_comment, strip_inline_comment
 from .types import StructType, use_structs
 
 
@@ -175,8 +175,20 @@ class TealishCompiler:
                 raise CompileError(describe_error(e), node=failing_node()) from e
         self.source_map = self.writer.source_map
         self.output = self.writer.output
+        self.check_labels()
         return self.writer.output
 
+    def check_labels(self) -> None:
+        labels = set()
+        for i, line in enumerate(self.output):
+            for label in find_labels(line):
+                if label in labels:
+                    raise CompileError(
+                        f'Label "{label}" is defined more than once '
+                        + f"at line {self.source_map[i + 1]}"
+                    )
+                labels.add(label)
+
     def reformat(self) -> str:
         if not self.nodes:
             self.parse()
diff --git a/tealish/utils.py b/tealish/utils.py
index 3337e51..67c91f0 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -56,6 +56,21 @@ def replace_labels(line: str, replacements: Dict[str, str]) -> str:
     return output + line[len(code) :]
 
 
+def find_labels(line: str) -> List[str]:
+    """Labels that a line of TEAL defines"""
+    labels = []
+    start = True
+    for token in _teal_token.findall(split_comment(line)[0]):
+        if token == ";":
+            start = True
+        elif start and not token.isspace():
+            if token.endswith(":"):
+                labels.append(token[:-1])
+            else:
+                start = False
+    return labels
+
+
 def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
     source_map: Dict[int, int] = {}
     n = 1
-- 
2.43.0


From 07ef0c659e5b04a644fdf09bce2e15309220ce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:26 +0000
Subject: [PATCH 30/60] fix: bytes and calls without a value were accepted as
 conditions, exit values, indices and switch options

---
 tealish/base.py             | 11 +++++++++++
 tealish/expression_nodes.py | 14 ++++++++++++++
 tealish/nodes.py            | 15 +++++++++++++++
 3 files changed, 40 insertions(+)

diff --git a/tealish/base.py b/tealish/base.py
index f1aac5e..a5ff8f1 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -150,6 +150,17 @@ class BaseNode:
         except Exception as e:
             raise CompileError(str(e), node=self)  # type: ignore
 
+    def check_type(
+        self, expression: "BaseNode", expected: TealishType, purpose: str
+    ) -> None:
+        """Check that an expression is a single value that can be used as expected"""
+        if not expected.can_hold(expression.type):  # type: ignore
+            raise CompileError(
+                f"Incorrect type {expression.type or 'none'} for {purpose}. "  # type: ignore
+                + f"Expected {expected}",
+                node=self,
+            )
+
     def get_field_type(self, namespace: str, name: str) -> TealishType:
         return lang_spec.get_field_type(namespace, name)
 
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 40e679a..a4f657c 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -376,6 +376,15 @@ class UserDefinedFuncCall(BaseNode):
         return f"{self.name}({', '.join(args)})"
 
 
+def check_index(index: BaseNode) -> None:
+    """Check that an evaluated index of a field is an int"""
+    type = index.type  # type: ignore
+    if not type or isinstance(type, (list, BytesType)):
+        raise CompileError(
+            f"Incorrect type {type or 'none'} for index. Expected int", node=index
+        )
+
+
 class TxnField(BaseNode):
     def __init__(self, field: str, parent: Optional[BaseNode] = None) -> None:
         self.field = field
@@ -409,6 +418,7 @@ class TxnArrayField(BaseNode):
         if not isinstance(self.arrayIndex, Integer):
             # index is an expression that needs to be evaluated
             self.arrayIndex.process()
+            check_index(self.arrayIndex)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.arrayIndex, Integer):
@@ -436,6 +446,7 @@ class GroupTxnField(BaseNode):
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
             self.index.process()
+            check_index(self.index)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if isinstance(self.index, Integer):
@@ -472,8 +483,10 @@ class GroupTxnArrayField(BaseNode):
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
             self.index.process()
+            check_index(self.index)
         if not isinstance(self.arrayIndex, Integer):
             self.arrayIndex.process()
+            check_index(self.arrayIndex)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.index, Integer):
@@ -583,6 +596,7 @@ class InnerTxnArrayField(BaseNode):
         if not isinstance(self.arrayIndex, Integer):
             # index is an expression that needs to be evaluated
             self.arrayIndex.process()
+            check_index(self.arrayIndex)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.arrayIndex, Integer):
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 40d6823..db81af2 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -503,6 +503,7 @@ class Exit(LineStatement):
 
     def process(self) -> None:
         self.expression.process()
+        self.check_type(self.expression, IntType(), "exit")
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -790,8 +791,15 @@ class Switch(InlineStatement):
 
     def process(self) -> None:
         self.expression.process()
+        self.check_type(self.expression, AnyType(), "switch")
+        is_bytes = isinstance(self.expression.type, BytesType)
         for node in self.options:
             node.expression.process()
+            if isinstance(self.expression.type, AnyType):
+                expected = AnyType()
+            else:
+                expected = BytesType() if is_bytes else IntType()
+            node.check_type(node.expression, expected, "switch option")
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -1187,6 +1195,7 @@ class Elif(Node):
 
     def process(self) -> None:
         self.condition.process()
+        self.check_type(self.condition, IntType(), "condition")
         for n in self.nodes:
             n.process()
 
@@ -1347,6 +1356,7 @@ class IfStatement(InlineStatement):
             self.child_nodes[-1].next_label = self.end_label
 
         self.condition.process()
+        self.check_type(self.condition, IntType(), "condition")
 
         if self.if_then is not None:
             self.if_then.process()
@@ -1452,6 +1462,7 @@ class WhileStatement(InlineStatement):
 
     def process(self) -> None:
         self.condition.process()
+        self.check_type(self.condition, IntType(), "condition")
         for n in self.nodes:
             n.process()
 
@@ -1510,6 +1521,8 @@ class ForStatement(InlineStatement):
         self.var = self.declare_scratch_var(self.var_name, "int")
         for n in self.nodes:
             n.process()
+        self.check_type(self.start, IntType(), "start of for")
+        self.check_type(self.end, IntType(), "end of for")
         self.del_var(self.var_name)
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -1574,6 +1587,8 @@ class For_Statement(InlineStatement):
     def process(self) -> None:
         for n in self.nodes:
             n.process()
+        self.check_type(self.start, IntType(), "start of for")
+        self.check_type(self.end, IntType(), "end of for")
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
-- 
2.43.0


From 492aeebc7ce43cb004c735f095fe72c31b0ef526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:08 +0000
Subject: [PATCH 31/60] fix: unknown inner transaction fields and values of
 calls that return none were accepted

---
 tealish/nodes.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index db81af2..8d04832 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -984,6 +984,16 @@ class InnerTxnFieldSetter(InlineStatement):
     index: int
     expression: GenericExpression
 
+    def process(self) -> None:
+        self.expression.process()
+        self.check_type(self.expression, AnyType(), "inner transaction field")
+        try:
+            self.lookup_op_field("itxn_field", self.field_name)
+        except KeyError:
+            raise CompileError(
+                f'Unknown inner transaction field "{self.field_name}"', node=self
+            )
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
         writer.write(self, self.expression)
@@ -1058,11 +1068,11 @@ class InnerTxn(InlineStatement):
                         + f"(expected {n}) at line {lno}!"
                     )
             else:
-                node.expression.process()
+                node.process()
 
         for a in self.array_fields.values():
             for node in a:
-                node.expression.process()
+                node.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
-- 
2.43.0


From 0919c8094121047c8762825b20b36e71be284626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:08 +0000
Subject: [PATCH 32/60] fix: Concat and ARC28Event accepted ints

---
 tealish/stdlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index ad3d334..9ca86c6 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -480,6 +480,7 @@ class Concat(FunctionCall):
     def process(self) -> None:
         for arg in self.args:
             arg.process()
+            self.check_type(arg, BytesType(), self.name)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -510,6 +511,7 @@ class ARC28Event(FunctionCall):
         self.prefix = SHA512.new(self.signature.encode(), truncate="256").hexdigest()[:8]  # 4 bytes, 8 chars of hex
         for arg in self.args[1:]:
             arg.process()
+            self.check_type(arg, BytesType(), self.name)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From fd9ac62b708a8b4b59944e7bfe64a10fb6060841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:12 +0000
Subject: [PATCH 33/60] fix: ToBytes of a bigint and FromBytes gave byte
 strings of another size than their type

---
 tealish/stdlib.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 9ca86c6..75996b8 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -187,8 +187,17 @@ class ToBytes(FunctionCall):
     def write_teal(self, writer: "TealWriter") -> None:
         expression_type = self.expression.type
         writer.write(self, self.expression)
-        if isinstance(expression_type, IntType):
-            writer.write(self, "itob")
+        if not isinstance(expression_type, IntType):
+            # The number of bytes of a bigint is only known at run time
+            writer.write(self, f"// zpad({self.type.size})")
+            writer.write(self, f"pushint {self.type.size}")
+            writer.write(self, "bzero")
+            writer.write(self, "b|")
+            writer.write(
+                self, ["dup", "len", f"pushint {self.type.size}", "==", "assert"]
+            )
+            return
+        writer.write(self, "itob")
         if self.type.size and self.type.size < 8:
             writer.write(self, f"extract {8 - self.type.size} {self.type.size}")
         elif self.type.size > 8:
@@ -213,6 +222,8 @@ class FromBytes(FunctionCall):
             raise CompileError(
                 f"Incorrect source type {self.expression.type} for FromBytes. Expected bytes."
             )
+        if not isinstance(self.type, IntType):
+            self.expression = BytesSizeAssertionWrapper(self.expression, self.type.size)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, self.expression)
-- 
2.43.0


From fd6903fa0b76d578554fe8bb512f74e154054cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 34/60] fix: standard library functions silently dropped
 surplus arguments

---
 tealish/expression_nodes.py |  3 +++
 tealish/stdlib.py           | 39 +++++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index a4f657c..1dae75f 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -225,6 +225,8 @@ class FunctionCall(BaseNode):
                 self.func_call = UserDefinedFuncCall(name, args, self)
 
     def process(self) -> None:
+        if not isinstance(self.func_call, (OpCall, UserDefinedFuncCall)):
+            self.func_call.check_num_args()
         self.func_call.process()
         self.type = self.func_call.type
         self.value = getattr(self.func_call, "value", None)
@@ -253,6 +255,7 @@ class StdLibFunctionCall(BaseNode):
             raise CompileError(f'Unknown Tealish function "{self.name}"', node=self)
 
     def process(self) -> None:
+        self.func_call.check_num_args()
         self.func_call.process()
         self.type = self.func_call.type
         self.value = getattr(self.func_call, "value", None)
diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 75996b8..59e7fa5 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -26,6 +26,10 @@ def constant_int(arg: "Node") -> int:
 
 
 class FunctionCall(BaseNode):
+    # smallest and largest number of arguments (None: any number)
+    min_args: int = 0
+    max_args: Optional[int] = 0
+
     def __init__(self, args: List["Node"], parent: Optional[BaseNode] = None) -> None:
         self.args = args
         self.parent = parent
@@ -33,6 +37,14 @@ class FunctionCall(BaseNode):
         self.nodes = args
         self.immediate_args = ""
 
+    def check_num_args(self) -> None:
+        n = len(self.args)
+        if n < self.min_args or (self.max_args is not None and n > self.max_args):
+            expected = str(self.min_args)
+            if self.max_args is None:
+                expected = f"at least {expected}"
+            raise CompileError(f"Expected {expected} args for {self.name}!", node=self)
+
     def process(self) -> None:
         for arg in self.args:
             arg.process()
@@ -61,6 +73,7 @@ class Push(FunctionCall):
     """Explicitly push arguments to the top of the stack"""
 
     name = "push"
+    max_args = None
 
     def process(self) -> None:
         self.type = None
@@ -77,6 +90,8 @@ class Bzero(FunctionCall):
     """bzero but with a return type of bytes[n] when arg n is a constant at compile time."""
 
     name = "bzero"
+    min_args = 1
+    max_args = 1
 
     def process(self) -> None:
         arg = self.args[0]
@@ -102,6 +117,8 @@ class Convert(FunctionCall):
     """
 
     name = "Convert"
+    min_args = 2
+    max_args = 2
 
     def process(self) -> None:
         self.type = get_type_instance(self.args[1].name)
@@ -140,6 +157,8 @@ class Cast(FunctionCall):
     """
 
     name = "Cast"
+    min_args = 2
+    max_args = 2
 
     def process(self) -> None:
         self.type = get_type_instance(self.args[1].name)
@@ -172,6 +191,8 @@ class Cast(FunctionCall):
 
 class ToBytes(FunctionCall):
     name = "ToBytes"
+    min_args = 2
+    max_args = 2
 
     def process(self) -> None:
         self.args[0].process()
@@ -209,6 +230,8 @@ class ToBytes(FunctionCall):
 
 class FromBytes(FunctionCall):
     name = "FromBytes"
+    min_args = 2
+    max_args = 2
 
     def process(self) -> None:
         self.args[0].process()
@@ -378,6 +401,8 @@ class TealWrapper(BaseNode):
 
 class EnsureType(FunctionCall):
     name = "EnsureType"
+    min_args = 2
+    max_args = None
 
     def process(self) -> None:
         types = [get_type_instance(a.name) for a in self.args[1:]]
@@ -391,6 +416,8 @@ class EnsureType(FunctionCall):
 
 class UncheckedCast(FunctionCall):
     name = "UncheckedCast"
+    min_args = 2
+    max_args = None
 
     def process(self) -> None:
         if len(self.args) == 2:
@@ -412,6 +439,8 @@ class Error(FunctionCall):
 
 class SizeOf(FunctionCall):
     name = "SizeOf"
+    min_args = 1
+    max_args = 1
 
     def process(self):
         type = get_type_instance(self.args[0].name)
@@ -424,6 +453,8 @@ class SizeOf(FunctionCall):
 
 class Rpad(FunctionCall):
     name = "Rpad"
+    min_args = 2
+    max_args = 2
 
     def process(self) -> None:
         self.args[0].process()
@@ -455,6 +486,8 @@ class Rpad(FunctionCall):
 
 class Lpad(FunctionCall):
     name = "Lpad"
+    min_args = 2
+    max_args = 2
 
     def process(self) -> None:
         self.args[0].process()
@@ -487,6 +520,8 @@ class Lpad(FunctionCall):
 
 class Concat(FunctionCall):
     name = "Concat"
+    min_args = 1
+    max_args = None
 
     def process(self) -> None:
         for arg in self.args:
@@ -503,6 +538,8 @@ class Concat(FunctionCall):
 
 class Address(FunctionCall):
     name = "Address"
+    min_args = 1
+    max_args = 1
 
     def process(self) -> None:
         for arg in self.args:
@@ -516,6 +553,8 @@ class Address(FunctionCall):
 
 class ARC28Event(FunctionCall):
     name = "ARC28Event"
+    min_args = 1
+    max_args = None
 
     def process(self) -> None:
         self.signature = self.args[0].value
-- 
2.43.0


From 01a436769c44c121ea0f8d8002522aa97378262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 35/60] fix: Address of a constant or of something that is no
 address gave TEAL that does not assemble

---
 tealish/stdlib.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 59e7fa5..ed94a0c 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -1,9 +1,10 @@
-from typing import List, Optional, Union
+from base64 import b32decode, b32encode
+from typing import Any, List, Optional, Union
 from Cryptodome.Hash import SHA512
 from tealish import TealWriter
 from tealish.base import BaseNode
 from tealish.errors import CompileError, warning
-from tealish.expression_nodes import Integer
+from tealish.expression_nodes import Constant, Integer
 from tealish.nodes import Node
 from tealish.types import (
     AVMType,
@@ -25,6 +26,18 @@ def constant_int(arg: "Node") -> int:
     return value
 
 
+def is_address(value: Any) -> bool:
+    """Is the value an Algorand address (base32 of a public key and its checksum)?"""
+    if not isinstance(value, str) or len(value) != 58:
+        return False
+    try:
+        decoded = b32decode(value + "======")
+    except ValueError:
+        return False
+    checksum = SHA512.new(decoded[:32], truncate="256").digest()[-4:]
+    return decoded[32:] == checksum and b32encode(decoded).decode()[:58] == value
+
+
 class FunctionCall(BaseNode):
     # smallest and largest number of arguments (None: any number)
     min_args: int = 0
@@ -542,13 +555,19 @@ class Address(FunctionCall):
     max_args = 1
 
     def process(self) -> None:
-        for arg in self.args:
-            arg.process()
+        arg = self.args[0]
+        arg.process()
+        address = getattr(arg, "value", None)
+        if isinstance(arg, Constant) and isinstance(address, str):
+            # The literal of a constant includes its quotes
+            address = address[1:-1]
+        if not is_address(address):
+            raise CompileError(f"{arg.tealish()} is not an address", node=self)
+        self.address = address
         self.type = BytesType(32)
 
     def write_teal(self, writer: "TealWriter") -> None:
-        value = self.args[0].value
-        writer.write(self, f"addr {value}")
+        writer.write(self, f"addr {self.address}")
 
 
 class ARC28Event(FunctionCall):
-- 
2.43.0


From 3138898afb187a04763f49075e556a4f257337d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 36/60] fix: statements whose string literals contain ' = '
 were rejected

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 8d04832..aaff327 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -396,7 +396,7 @@ class LineStatement(InlineStatement):
             return BoxDeclaration(line, parent, compiler=compiler)
         elif re.match(r"[a-z][a-zA-Z_0-9]*\.[a-z][a-zA-Z_0-9]* = .*", line):
             return StructOrBoxAssignment(line, parent, compiler=compiler)
-        elif " = " in line:
+        elif re.match(r'[^"(]* = ', line):
             return Assignment(line, parent, compiler=compiler)
         # Statement functions
         elif line.startswith("exit("):
-- 
2.43.0


From ccd754195b36f2ae9ff69a549a6cf3b4e03c0f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 37/60] fix: @public ignored parameters it did not understand

---
 tealish/nodes.py | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index aaff327..702577f 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1784,11 +1784,45 @@ class Return(LineStatement):
         return output + "\n"
 
 
+# When a public function may be called
+public_on_completions = (
+    "NoOp",
+    "OptIn",
+    "CloseOut",
+    "ClearState",
+    "UpdateApplication",
+    "DeleteApplication",
+    "CreateApplication",
+)
+
+
 class Decorator(Node):
     pattern = r"@(?P<name>[a-z][a-zA-Z_0-9]*)\((?P<params>.*)\)$"
     name: str
     params: str
 
+    def __init__(
+        self,
+        line: str,
+        parent: Optional[Node] = None,
+        compiler: Optional["TealishCompiler"] = None,
+    ) -> None:
+        super().__init__(line, parent, compiler)
+        self.attributes: Dict[str, str] = {}
+        if self.params.strip():
+            m = re.match(r"\s*(?P<key>\w+)\s*=\s*(?P<value>\w+)\s*$", self.params)
+            if m is None:
+                raise ParseError(
+                    f'Cannot parse decorator parameters "{self.params}" at line {self.line_no}'
+                )
+            self.attributes[m.groupdict()["key"]] = m.groupdict()["value"]
+        if self.name == "public":
+            for key, value in self.attributes.items():
+                if key != "OnCompletion" or value not in public_on_completions:
+                    raise ParseError(
+                        f'Unknown parameter "{key}={value}" of @public at line {self.line_no}'
+                    )
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
 
@@ -1819,11 +1853,7 @@ class DecoratedFunc(InlineStatement):
         self.func = node
         self.func.decorators = self.decorators
         for decorator in self.decorators:
-            self.func.attributes[decorator.name] = {}
-            if m := re.match(r"(?P<key>.*)=(?P<value>.*)", decorator.params):
-                self.func.attributes[decorator.name] = {
-                    m.groupdict()["key"]: m.groupdict()["value"]
-                }
+            self.func.attributes[decorator.name] = decorator.attributes
         self.add_child(node)
 
     @classmethod
-- 
2.43.0


From eab52e4e9a0c2c6021f0e95d44bd020b1e79c111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 38/60] fix: routers in different blocks could not share a
 function

---
 tealish/nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 702577f..5b2c5c7 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -829,7 +829,8 @@ class Route(Node):
 
     @property
     def label(self):
-        return f"route_{self.name}"
+        scope = self.get_current_scope()
+        return scope.name + ("__" if scope.name else "") + f"route_{self.name}"
 
     def process(self) -> None:
         self.arg_expressions = []
-- 
2.43.0


From a72e69e7b3fd9ef3d34e1c1de2945b165edf71ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 39/60] fix: a second else of a switch silently replaced the
 first

---
 tealish/nodes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 5b2c5c7..e015e61 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -769,6 +769,11 @@ class Switch(InlineStatement):
         self.add_child(node)
 
     def add_else(self, node: SwitchElse) -> None:
+        if self.else_ is not None:
+            raise ParseError(
+                f"Unexpected else at line {node.line_no}."
+                + " A switch can have only one else target."
+            )
         self.else_ = node
         self.add_child(node)
 
-- 
2.43.0


From 50ed146d5d4bae413098d8941c911228ad484126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 40/60] fix: empty byte string constants were rejected and ones
 with unescaped quotes accepted

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index e015e61..cf42cc3 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -33,7 +33,7 @@ from .scope import Scope
 from .utils import teal_string_size
 
 LITERAL_INT = r"[0-9]+"
-LITERAL_BYTE_STRING = r'"(.+)"'
+LITERAL_BYTE_STRING = r'"((?:[^"\\]|\\.)*)"'
 LITERAL_BYTE_HEX = r"0x([a-fA-F0-9]+)"
 VARIABLE_NAME = r"[a-z_][a-zA-Z0-9_]*"
 
-- 
2.43.0


From 706449d8eac6c9446a06367d16f8424a4e9ce48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 41/60] fix: a block inside an inner_group was run as part of
 it

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index cf42cc3..1e2f0b8 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1108,7 +1108,7 @@ class InnerTxn(InlineStatement):
 
 
 class InnerGroup(InlineStatement):
-    possible_child_nodes = [Statement]
+    possible_child_nodes = [InlineStatement]
     pattern = r"inner_group:$"
 
     def __init__(self, line: str, parent: Node, compiler: "TealishCompiler") -> None:
-- 
2.43.0


From e428ed56547e40a2c92043ee0379fda09f461c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 42/60] fix: unknown names were reported as an internal error

---
 tealish/expression_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 1dae75f..ebfb279 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -120,7 +120,7 @@ class Enum(BaseNode):
             try:
                 # op field
                 type = self.lookup_op_field(self.parent.name, self.name)
-            except KeyError:
+            except (KeyError, AttributeError):
                 raise CompileError(f'Unknown builtin enum "{self.name}"', node=self)
         if not isinstance(type, (IntType, BytesType, BigIntType, AddrType)):
             raise CompileError(f"Unexpected const type {type}", node=self)
-- 
2.43.0


From 0e65b95a4954ef6e0bb863aa59f1a1140b76be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 43/60] fix: program counters were attributed to the TEAL line
 before theirs

---
 tealish/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tealish/utils.py b/tealish/utils.py
index 67c91f0..4522795 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -154,7 +154,8 @@ class TealishMap:
     ) -> None:
         if not isinstance(sourcemap, SourceMap):
             sourcemap = SourceMap(sourcemap)
-        self.pc_teal = dict(sourcemap.pc_to_line)
+        # the assembler counts lines from 0, the other maps from 1
+        self.pc_teal = {pc: line + 1 for pc, line in sourcemap.pc_to_line.items()}
 
     def as_dict(self) -> Dict[str, Any]:
         return {
-- 
2.43.0


From 6933102c97e1cf992cd35e47bed44cf4e12734b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 44/60] fix: keep base64 data when stripping TEAL comments; do
 not merge labels of lines with several statements when minifying

---
 tealish/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tealish/utils.py b/tealish/utils.py
index 4522795..ca06e48 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -2,12 +2,14 @@ import re
 from typing import Dict, List, Tuple, Optional, Union, Any
 from algosdk.source_map import SourceMap
 
-_string_or_comment = re.compile(r'"(?:\\.|[^"\\])*"|//')
+_string_or_comment = re.compile(
+    r'"(?:\\.|[^"\\])*"|\b(?:base64|b64)(?:\s+[^\s;"]+|\([^\s;"]*?\))|//'
+)
 
 
 def split_comment(line: str) -> Tuple[str, Optional[str]]:
     """Split a line of TEAL into code and comment (None if there is no comment).
-    A // inside a string literal is not a comment."""
+    A // inside a string literal or base64 data is not a comment."""
     for match in _string_or_comment.finditer(line):
         if match.group() == "//":
             return line[: match.start()], line[match.end() :]
@@ -83,7 +85,7 @@ def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
         line = line.strip()
         if not (not line or line.startswith("//")):
             code = split_comment(line)[0].strip()
-            if code.endswith(":"):
+            if re.fullmatch(r"[^\s;]+:", code):
                 label = code[:-1]
                 # duplicate labels get compressed into 1
                 if previous_line_is_label:
-- 
2.43.0


From 44822c502d1444b684f57c93cd85c0f2c28d639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 45/60] fix: byte strings ending in a backslash or containing
 escaped backslashes and quotes were cut at the wrong place

---
 tealish/expression_nodes.py    | 13 ++++++++++---
 tealish/nodes.py               | 26 ++++++++++++++------------
 tealish/tealish_expressions.tx |  3 ++-
 tealish/utils.py               |  2 +-
 4 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index ebfb279..268fb91 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -1,3 +1,4 @@
+import re
 from typing import List, Optional, Union, TYPE_CHECKING
 
 from .base import BaseNode
@@ -39,9 +40,15 @@ class Integer(BaseNode):
 
 class Bytes(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
-        self.value = value
-        # textX unescapes quotes (and only quotes)
-        self.literal = value.replace('"', '\\"')
+        # the text between the quotes, with TEAL's escape sequences
+        self.literal = value[1:-1]
+        if value[0] == "'":
+            self.literal = re.sub(
+                r"\\.|\"",
+                lambda m: {"\\'": "'", '"': '\\"'}.get(m.group(), m.group()),
+                self.literal,
+            )
+        self.value = self.literal.replace('\\"', '"')
         self.type = BytesType(size=teal_string_size(self.literal))
         self.parent = parent
 
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 1e2f0b8..4979423 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -35,6 +35,9 @@ from .utils import teal_string_size
 LITERAL_INT = r"[0-9]+"
 LITERAL_BYTE_STRING = r'"((?:[^"\\]|\\.)*)"'
 LITERAL_BYTE_HEX = r"0x([a-fA-F0-9]+)"
+STRING_OR_CHARACTER = re.compile(
+    r'''"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|.'''
+)
 VARIABLE_NAME = r"[a-z_][a-zA-Z0-9_]*"
 
 if TYPE_CHECKING:
@@ -537,7 +540,7 @@ class FunctionCallStatement(LineStatement):
 
 
 class Assert(LineStatement):
-    pattern = r'assert\((?P<arg>.*?)(, "(?P<message>.*?)")?\)$'
+    pattern = r'assert\((?P<arg>.*?)(, "(?P<message>(?:[^"\\]|\\.)*)")?\)$'
     arg: GenericExpression
     message: str
 
@@ -2149,17 +2152,16 @@ class BoxDeclaration(LineStatement):
 
 def split_return_args(s):
     parentheses = 0
-    quotes = False
-    for i in range(len(s)):
-        if s[i] == '"':
-            quotes = not quotes
-        if not quotes:
-            if s[i] == "(":
-                parentheses += 1
-            if s[i] == ")":
-                parentheses -= 1
-            if parentheses == 0 and s[i] == ",":
-                return [s[:i].strip()] + split_return_args(s[i + 1 :].strip())
+    for match in STRING_OR_CHARACTER.finditer(s):
+        token = match.group()
+        if token == "(":
+            parentheses += 1
+        if token == ")":
+            parentheses -= 1
+        if parentheses == 0 and token == ",":
+            return [s[: match.start()].strip()] + split_return_args(
+                s[match.end() :].strip()
+            )
     return [s]
 
 
diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 1fd0a34..5266221 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -44,4 +44,5 @@ NegativeGroupIndex: '-' index=INT;
 PositiveGroupIndex: '+' index=INT;
 HexBytes: value=/0x([a-fA-F0-9]+)/;
 Integer: value=/[0-9_]+/;
-Bytes: value=STRING | HexBytes;
+ByteString: /"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'/;
+Bytes: value=ByteString | HexBytes;
diff --git a/tealish/utils.py b/tealish/utils.py
index ca06e48..b9dab28 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -16,7 +16,7 @@ def split_comment(line: str) -> Tuple[str, Optional[str]]:
     return line, None
 
 
-_quoted_or_hash = re.compile(r'''"(?:\\"|[^"])*"|'(?:\\'|[^'])*'|#''')
+_quoted_or_hash = re.compile(r'''"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|#''')
 
 
 def strip_inline_comment(line: str) -> str:
-- 
2.43.0


From 28f46041c66959ec9898b452ec89dd995585c2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 46/60] fix: text after a type and surplus commas in function
 signatures were dropped

---
 tealish/nodes.py | 11 ++++++-----
 tealish/types.py |  8 ++++----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 4979423..97ee647 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1638,7 +1638,7 @@ class For_Statement(InlineStatement):
 
 class ArgsList(Expression):
     arg_pattern = r"(?P<arg_name>[a-z][a-zA-Z_0-9]*): (?P<arg_type>[a-zA-Z][A-Za-z_0-9<>]*(?:\[\d+\])?)"
-    pattern = rf"(?P<args>({arg_pattern}(, ?|$))*)$"
+    pattern = rf"(?P<args>({arg_pattern}(, ?(?!$)|$))*)$"
     args: List[Tuple[str, TealishType]]
 
     def __init__(self, line: str) -> None:
@@ -1671,11 +1671,12 @@ class Func(InlineStatement):
         scope.declare_function(self.name, self)
         self.label = scope.name + "__func__" + self.name
         self.new_scope("func__" + self.name)
-        self.return_type = self.return_type.replace(" ", "")
+        self.return_type = self.return_type.strip()
         try:
             self.returns = [
-                get_type_instance(type_name)
-                for type_name in filter(None, self.return_type.split(","))
+                get_type_instance(type_name.strip())
+                for type_name in self.return_type.split(",")
+                if self.return_type
             ]
         except KeyError as e:
             raise ParseError(str(e) + f" Line {self.line_no}")
@@ -1731,7 +1732,7 @@ class Func(InlineStatement):
         writer.level -= 1
 
     def _tealish(self) -> str:
-        returns = " " + ", ".join(self.return_type.split(",")) if self.returns else ""
+        returns = " " + ", ".join(t.strip() for t in self.return_type.split(",")) if self.returns else ""
         output = f"func {self.name}({self.args.tealish()}){returns}:\n"
         for n in self.child_nodes:
             output += indent(n.tealish())
diff --git a/tealish/types.py b/tealish/types.py
index 2476932..ab5d542 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -228,16 +228,16 @@ def get_type_instance(type_name):
         return UInt8Type()
     elif type_name == "uint64":
         return IntType()
-    elif m := re.match(r"bytes\[([0-9]+)\]", type_name):
+    elif m := re.fullmatch(r"bytes\[([0-9]+)\]", type_name):
         size = int(m.groups()[0])
         return BytesType(size)
-    elif m := re.match(r"box<([A-Z][a-zA-Z0-9_]+)>", type_name):
+    elif m := re.fullmatch(r"box<([A-Z][a-zA-Z0-9_]+)>", type_name):
         struct_name = m.groups()[0]
         return BoxType(struct_name=struct_name)
-    elif m := re.match(r"([A-Z][a-zA-Z0-9_]+)", type_name):
+    elif m := re.fullmatch(r"([A-Z][a-zA-Z0-9_]+)", type_name):
         struct_name = m.groups()[0]
         return get_struct(struct_name)
-    elif m := re.match(r"uint8\[([0-9]+)\]", type_name):
+    elif m := re.fullmatch(r"uint8\[([0-9]+)\]", type_name):
         size = int(m.groups()[0])
         return ArrayType(UInt8Type, size)
     else:
-- 
2.43.0


From c7eb8788d24c3189e369030ebf10a65c40127c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 47/60] fix: several errors did not say which line they are
 about

---
 tealish/__init__.py |  2 ++
 tealish/nodes.py    | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 1500502..b7e7bfa 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -155,6 +155,8 @@ class TealishCompiler:
                 node = failing_node()
                 if node is not None:
                     print(node.line_no, node.line)
+                if isinstance(e, CompileError) and e.node is None:
+                    raise CompileError(str(e), node=node) from e
                 if isinstance(e, (ParseError, CompileError)):
                     raise
                 raise CompileError(describe_error(e), node=node) from e
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 97ee647..1ce86d4 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -76,10 +76,13 @@ class Node(BaseNode):
 
         raw_tokens: Optional[re.Match[str]] = re.match(self.pattern, self.line)
         if raw_tokens is None:
-            raise ParseError(
+            message = (
                 f"Pattern ({self.pattern}) does not match "
                 + f'for {self} for line "{self.line}"'
             )
+            if self._line_no:
+                message += f" at line {self._line_no}"
+            raise ParseError(message)
         self.raw_tokens = raw_tokens.groupdict()
 
         type_hints = get_type_hints(self.__class__)
@@ -616,7 +619,10 @@ class Assignment(LineStatement):
         self.expression.process()
         t = self.expression.type
         self.incoming_types = t if type(t) == list else [t]
-        names = [Name(s.strip()) for s in self.names.split(",")]
+        try:
+            names = [Name(s.strip()) for s in self.names.split(",")]
+        except ParseError as e:
+            raise ParseError(f"{e} at line {self.line_no}")
         self.name_nodes = names
         if len(self.incoming_types) != len(names):
             raise CompileError(
@@ -1762,7 +1768,10 @@ class Return(LineStatement):
             args = split_return_args(self.args)
             for a in args:
                 arg = a.strip()
-                node = GenericExpression.parse(arg, self, compiler)
+                try:
+                    node = GenericExpression.parse(arg, self, compiler)
+                except ParseError as e:
+                    raise ParseError(f"{e} at line {self.line_no}")
                 self.args_expressions.append(node)
         if len(self.args_expressions) != len(self.func.returns):
             raise ParseError(f"Incorrect number of returns. Line {self.line_no}")
-- 
2.43.0


From 99d5c2e6391922898c838435d29af52b19f6a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 48/60] fix: opcode calls with missing immediates and calls of
 opcodes that take labels or lists were accepted

---
 tealish/expression_nodes.py | 8 +++++---
 tealish/langspec.py         | 4 ++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 268fb91..674bda4 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -295,12 +295,14 @@ class OpCall(BaseNode):
     def process_op_call(self, op: Op) -> None:
         self.func_call_type = "op"
         self.op = op
+        if not op.has_fixed_immediates:
+            raise CompileError(f"{op.name} can not be called", node=self)
         immediates = self.args[: op.immediate_args_num]
-        num_args = len(op.args)
-
-        self.args = self.args[op.immediate_args_num :]
+        num_args = op.immediate_args_num + len(op.args)
         if len(self.args) != num_args:
             raise CompileError(f"Expected {num_args} args for {op.name}!", node=self)
+
+        self.args = self.args[op.immediate_args_num :]
         for i, arg in enumerate(self.args):
             arg.process()
         self.check_arg_types(self.name, self.args)
diff --git a/tealish/langspec.py b/tealish/langspec.py
index 98861b9..4031d0e 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -179,6 +179,10 @@ class Op:
             self.immediate_note = op_def["ImmediateNote"]
         else:
             self.immediate_note = ""
+        # Labels and lists of immediates can't be written as arguments of a call
+        self.has_fixed_immediates = (
+            self.size > 0 and "branch offset" not in str(self.immediate_note)
+        )
 
         if "ArgEnum" in op_def:
             self.arg_enum = op_def["ArgEnum"]
-- 
2.43.0


From ea39fcc17aa2fefea84254cb0c5e43692da9498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 49/60] fix: immediates of the wrong kind, order or range were
 passed on to the assembler, names of transaction types and completions
 without their value

---
 tealish/expression_nodes.py | 20 +++++++++++++-------
 tealish/langspec.py         | 17 +++++++++++++++++
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 674bda4..706177c 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -308,17 +308,23 @@ class OpCall(BaseNode):
         self.check_arg_types(self.name, self.args)
         for i, x in enumerate(immediates):
             x.process()
-            if isinstance(x, Constant):
+            kind, minimum, maximum = op.immediates[i]
+            value = getattr(x, "value", None)
+            if isinstance(x, Enum) and x.name in op.arg_enum_dict and kind in ("field", "any"):
                 immediates[i] = x.name
-            elif isinstance(x, Enum):
-                immediates[i] = x.name
-            elif hasattr(x, "value") and isinstance(x.type, IntType):
-                immediates[i] = x.value
-            elif hasattr(x, "value") and isinstance(x.type, BytesType):
+            elif (
+                isinstance(value, int)
+                and isinstance(x.type, IntType)
+                and kind in ("int", "any")
+                and minimum <= value <= maximum
+            ):
+                immediates[i] = x.name if isinstance(x, Constant) else value
+            elif isinstance(x, Bytes) and kind in ("string", "any"):
                 immediates[i] = f'"{x.literal}"'
             else:
                 raise CompileError(
-                    f"{x} can not be used as an immediate argument for {op.name}",
+                    f"{x.tealish()} can not be used as an immediate argument "
+                    + f"for {op.name}",
                     node=self,
                 )
         self.immediate_args = " ".join(map(str, immediates))
diff --git a/tealish/langspec.py b/tealish/langspec.py
index 4031d0e..1a0706a 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -1,5 +1,6 @@
 import importlib
 import os
+import re
 import requests
 import tealish
 import json
@@ -17,6 +18,7 @@ pseudo_ops = [
         "Name": "method",
         "Opcode": "method",
         "Size": 2,
+        "ImmediateNote": "{string method signature}",
         "Args": [],
         "Returns": ["B"],
     },
@@ -196,6 +198,21 @@ class Op:
             self.arg_enum_types = []
             self.arg_enum_dict = {}
 
+        # kind and range of each immediate argument
+        notes = re.findall(r"\{(\w+) ([^}]*)\}", str(self.immediate_note))
+        self.immediates: List[Tuple[str, int, int]] = []
+        for i in range(self.immediate_args_num):
+            if len(notes) != self.immediate_args_num:
+                self.immediates.append(("any", 0, 2**64 - 1))
+            elif self.arg_enum and notes[i][1].endswith("field index"):
+                self.immediates.append(("field", 0, 0))
+            elif notes[i][0] == "string":
+                self.immediates.append(("string", 0, 0))
+            elif notes[i][0] == "int8":
+                self.immediates.append(("int", -128, 127))
+            else:
+                self.immediates.append(("int", 0, 255))
+
         for field_name in self.arg_enum_dict:
             if field_name in field_types:
                 self.arg_enum_dict[field_name] = field_types[field_name]
-- 
2.43.0


From 50e9129143b0940f210ceb3f79c9bbc219e3b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 50/60] fix: array indices above 255 and signed relative
 indices were written as immediates that do not exist

---
 tealish/expression_nodes.py    | 27 ++++++++++++++++-----------
 tealish/tealish_expressions.tx |  4 ++--
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 706177c..b53e7e2 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -394,6 +394,11 @@ class UserDefinedFuncCall(BaseNode):
         return f"{self.name}({', '.join(args)})"
 
 
+def is_immediate(index: BaseNode) -> bool:
+    """Can this index of an array field be an immediate (one byte) argument?"""
+    return isinstance(index, Integer) and index.value < 256
+
+
 def check_index(index: BaseNode) -> None:
     """Check that an evaluated index of a field is an int"""
     type = index.type  # type: ignore
@@ -433,13 +438,13 @@ class TxnArrayField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("txn", self.field)
-        if not isinstance(self.arrayIndex, Integer):
+        if not is_immediate(self.arrayIndex):
             # index is an expression that needs to be evaluated
             self.arrayIndex.process()
             check_index(self.arrayIndex)
 
     def write_teal(self, writer: "TealWriter") -> None:
-        if not isinstance(self.arrayIndex, Integer):
+        if not is_immediate(self.arrayIndex):
             writer.write(self, self.arrayIndex)
             writer.write(self, f"txnas {self.field}")
         else:
@@ -502,7 +507,7 @@ class GroupTxnArrayField(BaseNode):
             # index is an expression that needs to be evaluated
             self.index.process()
             check_index(self.index)
-        if not isinstance(self.arrayIndex, Integer):
+        if not is_immediate(self.arrayIndex):
             self.arrayIndex.process()
             check_index(self.arrayIndex)
 
@@ -510,7 +515,7 @@ class GroupTxnArrayField(BaseNode):
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
             writer.write(self, self.index)
-            if not isinstance(self.arrayIndex, Integer):
+            if not is_immediate(self.arrayIndex):
                 # arrayIndex is an expression that needs to be evaluated
                 writer.write(self, self.arrayIndex)
                 writer.write(self, f"gtxnsas {self.field}")
@@ -520,7 +525,7 @@ class GroupTxnArrayField(BaseNode):
         else:
             # index is a constant
             assert self.index.value >= 0 and self.index.value < 16
-            if not isinstance(self.arrayIndex, Integer):
+            if not is_immediate(self.arrayIndex):
                 # arrayIndex is an expression that needs to be evaluated
                 writer.write(self, self.arrayIndex)
                 writer.write(self, f"gtxnas {self.index.value} {self.field}")
@@ -536,8 +541,8 @@ class GroupTxnArrayField(BaseNode):
 
 
 class PositiveGroupIndex(BaseNode):
-    def __init__(self, index: int, parent: Optional["BaseNode"] = None) -> None:
-        self.index = index
+    def __init__(self, index: str, parent: Optional["BaseNode"] = None) -> None:
+        self.index = Integer(index).value
         self.type = AVMType.int
         self.parent = parent
 
@@ -551,8 +556,8 @@ class PositiveGroupIndex(BaseNode):
 
 
 class NegativeGroupIndex(BaseNode):
-    def __init__(self, index: int, parent: Optional[BaseNode] = None) -> None:
-        self.index = index
+    def __init__(self, index: str, parent: Optional[BaseNode] = None) -> None:
+        self.index = Integer(index).value
         self.type = AVMType.int
         self.parent = parent
 
@@ -611,13 +616,13 @@ class InnerTxnArrayField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("txn", self.field)
-        if not isinstance(self.arrayIndex, Integer):
+        if not is_immediate(self.arrayIndex):
             # index is an expression that needs to be evaluated
             self.arrayIndex.process()
             check_index(self.arrayIndex)
 
     def write_teal(self, writer: "TealWriter") -> None:
-        if not isinstance(self.arrayIndex, Integer):
+        if not is_immediate(self.arrayIndex):
             writer.write(self, self.arrayIndex)
             writer.write(self, f"itxnas {self.field}")
         else:
diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 5266221..c8e9596 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -40,8 +40,8 @@ Enum: name=/([A-Z][A-Za-z_0-9]+)/;
 Name: (/([a-z][A-Za-z_0-9]*)(\[[0-9]+\])?/ | /_/);
 StdLibFunctionName: /([A-Z][A-Za-z_0-9]+)/;
 GroupIndex: NegativeGroupIndex | PositiveGroupIndex | Expression;
-NegativeGroupIndex: '-' index=INT;
-PositiveGroupIndex: '+' index=INT;
+NegativeGroupIndex: '-' index=/[0-9]+/;
+PositiveGroupIndex: '+' index=/[0-9]+/;
 HexBytes: value=/0x([a-fA-F0-9]+)/;
 Integer: value=/[0-9_]+/;
 ByteString: /"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'/;
-- 
2.43.0


From ab9c824c3cc3f3a8dff6479e7ab5f65b423d2af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 51/60] fix: integer constants with leading zeros were read as
 octal numbers by the assembler

---
 tealish/nodes.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 1ce86d4..bbefdec 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -418,7 +418,7 @@ class LineStatement(InlineStatement):
 
 
 class TealVersion(LineStatement):
-    pattern = r"#pragma version (?P<version>\d+)$"
+    pattern = r"#pragma version (?P<version>[0-9]+)$"
     version: int
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -479,7 +479,11 @@ class Const(LineStatement):
         scope.declare_const(self.name, (self.literal.type(), value))
 
     def write_teal(self, writer: "TealWriter") -> None:
-        writer.write(self, f"#define {self.name} {self.literal.value}")
+        value = self.literal.value
+        if isinstance(self.literal, LiteralInt):
+            # the assembler reads numbers with leading zeros as octal
+            value = str(int(value))
+        writer.write(self, f"#define {self.name} {value}")
 
     def _tealish(self) -> str:
         s = f"const {self.tealish_type} {self.name}"
@@ -994,7 +998,7 @@ class Teal(InlineStatement):
 
 
 class InnerTxnFieldSetter(InlineStatement):
-    pattern = r"(?P<field_name>.*?)(\[(?P<index>\d\d?)\])?: (?P<expression>.*)"
+    pattern = r"(?P<field_name>.*?)(\[(?P<index>[0-9][0-9]?)\])?: (?P<expression>.*)"
     field_name: str
     index: int
     expression: GenericExpression
@@ -1643,7 +1647,7 @@ class For_Statement(InlineStatement):
 
 
 class ArgsList(Expression):
-    arg_pattern = r"(?P<arg_name>[a-z][a-zA-Z_0-9]*): (?P<arg_type>[a-zA-Z][A-Za-z_0-9<>]*(?:\[\d+\])?)"
+    arg_pattern = r"(?P<arg_name>[a-z][a-zA-Z_0-9]*): (?P<arg_type>[a-zA-Z][A-Za-z_0-9<>]*(?:\[[0-9]+\])?)"
     pattern = rf"(?P<args>({arg_pattern}(, ?(?!$)|$))*)$"
     args: List[Tuple[str, TealishType]]
 
@@ -1916,7 +1920,7 @@ class DecoratedFunc(InlineStatement):
 class StructFieldDefinition(InlineStatement):
     pattern = (
         r"(?P<field_name>[a-z][A-Z-a-z0-9_]*): "
-        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]+(\[\d+\])?)$"
+        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]+(\[[0-9]+\])?)$"
     )
     field_name: str
     data_type: str
-- 
2.43.0


From bc9c14f4b5892bbbd0ea97f978c029678aefb50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 52/60] fix: do not repeat the line in error messages that have
 it

---
 tealish/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index b7e7bfa..3822e79 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -155,8 +155,13 @@ class TealishCompiler:
                 node = failing_node()
                 if node is not None:
                     print(node.line_no, node.line)
-                if isinstance(e, CompileError) and e.node is None:
-                    raise CompileError(str(e), node=node) from e
+                message = str(e)
+                if (
+                    isinstance(e, CompileError)
+                    and e.node is None
+                    and " at line " not in message
+                ):
+                    raise CompileError(message, node=node) from e
                 if isinstance(e, (ParseError, CompileError)):
                     raise
                 raise CompileError(describe_error(e), node=node) from e
-- 
2.43.0


From f7fc98d7e54374a4f41e5b77b1c4697371330a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:57 +0000
Subject: [PATCH 53/60] fix: what follows the name of a type argument was
 dropped

---
 tealish/stdlib.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index ed94a0c..2a663a5 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -4,7 +4,7 @@ from Cryptodome.Hash import SHA512
 from tealish import TealWriter
 from tealish.base import BaseNode
 from tealish.errors import CompileError, warning
-from tealish.expression_nodes import Constant, Integer
+from tealish.expression_nodes import Constant, Enum, Integer, Variable
 from tealish.nodes import Node
 from tealish.types import (
     AVMType,
@@ -12,6 +12,7 @@ from tealish.types import (
     BigIntType,
     BytesType,
     IntType,
+    TealishType,
     UIntType,
     get_type_instance,
 )
@@ -38,6 +39,13 @@ def is_address(value: Any) -> bool:
     return decoded[32:] == checksum and b32encode(decoded).decode()[:58] == value
 
 
+def type_argument(arg: "Node") -> TealishType:
+    """The type that is named by an argument of a function"""
+    if not isinstance(arg, (Variable, Constant, Enum)):
+        raise CompileError(f"Expected a type, got {arg.tealish()}", node=arg)
+    return get_type_instance(arg.name)
+
+
 class FunctionCall(BaseNode):
     # smallest and largest number of arguments (None: any number)
     min_args: int = 0
@@ -134,7 +142,7 @@ class Convert(FunctionCall):
     max_args = 2
 
     def process(self) -> None:
-        self.type = get_type_instance(self.args[1].name)
+        self.type = type_argument(self.args[1])
         self.args[0].process()
         self.expression = self.args[0]
         if str(self.expression.type) == str(self.type):
@@ -174,7 +182,7 @@ class Cast(FunctionCall):
     max_args = 2
 
     def process(self) -> None:
-        self.type = get_type_instance(self.args[1].name)
+        self.type = type_argument(self.args[1])
         self.args[0].process()
         self.expression = self.args[0]
         if str(self.expression.type) == str(self.type):
@@ -249,7 +257,7 @@ class FromBytes(FunctionCall):
     def process(self) -> None:
         self.args[0].process()
         self.expression = self.args[0]
-        to_type = get_type_instance(self.args[1].name)
+        to_type = type_argument(self.args[1])
         if isinstance(to_type, IntType):
             to_type = IntType()
         self.type = to_type
@@ -418,7 +426,7 @@ class EnsureType(FunctionCall):
     max_args = None
 
     def process(self) -> None:
-        types = [get_type_instance(a.name) for a in self.args[1:]]
+        types = [type_argument(a) for a in self.args[1:]]
         self.args[0].process()
         self.expression = TypeAssertionWrapper(self.args[0], types, return_val=True)
         self.type = types[0] if len(types) == 1 else types
@@ -434,9 +442,9 @@ class UncheckedCast(FunctionCall):
 
     def process(self) -> None:
         if len(self.args) == 2:
-            self.type = get_type_instance(self.args[1].name)
+            self.type = type_argument(self.args[1])
         else:
-            self.type = [get_type_instance(arg.name) for arg in self.args[1:]]
+            self.type = [type_argument(arg) for arg in self.args[1:]]
         self.args[0].process()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -456,7 +464,7 @@ class SizeOf(FunctionCall):
     max_args = 1
 
     def process(self):
-        type = get_type_instance(self.args[0].name)
+        type = type_argument(self.args[0])
         self.value = type.size
         self.type = IntType()
 
-- 
2.43.0


From 93d564c0bc1d1ed5c7c62a064783dd6af2252739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:59 +0000
Subject: [PATCH 54/60] fix: reject a block that has the name of a constant

---
 tealish/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 3822e79..ef8af7f 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -186,6 +186,8 @@ class TealishCompiler:
         return self.writer.output
 
     def check_labels(self) -> None:
+        words = [line.split() for line in self.output]
+        macros = {w[1] for w in words if len(w) > 1 and w[0] == "#define"}
         labels = set()
         for i, line in enumerate(self.output):
             for label in find_labels(line):
@@ -194,6 +196,11 @@ class TealishCompiler:
                         f'Label "{label}" is defined more than once '
                         + f"at line {self.source_map[i + 1]}"
                     )
+                if label in macros:
+                    raise CompileError(
+                        f'Label "{label}" has the name of a constant '
+                        + f"at line {self.source_map[i + 1]}"
+                    )
                 labels.add(label)
 
     def reformat(self) -> str:
-- 
2.43.0


From cc4dfa347efd2bc71d9c68316030f7bc6695fa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 55/60] fix: write the map file as JSON whatever the assert
 messages contain

---
 tealish/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index 12ccefb..c1bfe48 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -78,7 +78,7 @@ def _build(
             if not quiet:
                 click.echo(f"Writing source map to {map_filename}")
             with open(map_filename, "w") as f:
-                f.write(json.dumps(tealish_map.as_dict()).replace("],", "],\n"))
+                f.write(json.dumps(tealish_map.as_dict()))
 
 
 def _compile_program(source: str) -> Tuple[List[str], TealishMap]:
-- 
2.43.0


From 82298f1d462255cfddc7efbe7a958d4b86e70d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:45 +0000
Subject: [PATCH 56/60] fix: name outputs after the whole source name

---
 tealish/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index c1bfe48..3681bbe 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -30,7 +30,7 @@ def _build(
         output_path = pathlib.Path(path).parent / "build"
         output_path.mkdir(exist_ok=True)
         filename = pathlib.Path(path).name
-        base_filename = filename.replace(".tl", "")
+        base_filename = filename[:-3] if filename.endswith(".tl") else filename
 
         # Teal
         teal_filename = output_path / f"{base_filename}.teal"
-- 
2.43.0


From 0964233b7b09d214fc3b8a426fd88b27474729ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:46 +0000
Subject: [PATCH 57/60] fix: report compile errors in format and inspect

---
 tealish/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index 3681bbe..c670215 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -144,7 +144,7 @@ def format(ctx: click.Context, tealish_file: IO) -> None:
     input = tealish_file.read()
     try:
         output = reformat_program(input)
-    except ParseError as e:
+    except (ParseError, CompileError) as e:
         raise click.ClickException(str(e))
     tealish_file.seek(0)
     tealish_file.write(output)
@@ -159,7 +159,7 @@ def inspect(ctx: click.Context, tealish_file: IO) -> None:
     input = tealish_file.read()
     try:
         output = inspect_program(input)
-    except ParseError as e:
+    except (ParseError, CompileError) as e:
         raise click.ClickException(str(e))
     print(json.dumps(output, indent=2))
 
-- 
2.43.0


From d43176ec9400451b2106b38bdd2b96f6339512df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 58/60] fix: assemble with goal in a temporary directory of its
 own

---
 tealish/build.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/tealish/build.py b/tealish/build.py
index a28d429..a55cec3 100644
--- a/tealish/build.py
+++ b/tealish/build.py
@@ -1,24 +1,29 @@
 from base64 import b64decode
 from typing import Tuple
 import json
+import os
 import subprocess
+import tempfile
 from algosdk.v2client.algod import AlgodClient
 from algosdk.source_map import SourceMap
 
 
 def assemble_with_goal(teal: str) -> Tuple[bytes, SourceMap]:
-    tmp_out_filename = "/tmp/out.tok"
-    try:
-        subprocess.check_output(
-            ["goal", "clerk", "compile", "-", "--map", "-o", tmp_out_filename],
-            input=teal.encode(),
-        )
-    except FileNotFoundError:
-        raise Exception("goal not found in path")
-    except subprocess.CalledProcessError as e:
-        raise Exception(e.output)
-    bytecode = open(tmp_out_filename, "rb").read()
-    algod_sourcemap = json.load(open(tmp_out_filename + ".map"))
+    with tempfile.TemporaryDirectory() as tmp_dir:
+        tmp_out_filename = os.path.join(tmp_dir, "out.tok")
+        try:
+            subprocess.check_output(
+                ["goal", "clerk", "compile", "-", "--map", "-o", tmp_out_filename],
+                input=teal.encode(),
+            )
+        except FileNotFoundError:
+            raise Exception("goal not found in path")
+        except subprocess.CalledProcessError as e:
+            raise Exception(e.output)
+        with open(tmp_out_filename, "rb") as f:
+            bytecode = f.read()
+        with open(tmp_out_filename + ".map") as f:
+            algod_sourcemap = json.load(f)
     return bytecode, SourceMap(algod_sourcemap)
 
 
-- 
2.43.0


From 13dfded430ea4da2aeecc5b360ce9795f3eb0450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:21 +0000
Subject: [PATCH 59/60] fix: EnsureType rejects a type of the other kind and a
 wrong number of types

---
 tealish/stdlib.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 2a663a5..3a7ca84 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -428,6 +428,18 @@ class EnsureType(FunctionCall):
     def process(self) -> None:
         types = [type_argument(a) for a in self.args[1:]]
         self.args[0].process()
+        incoming = self.args[0].type
+        if not isinstance(incoming, list):
+            incoming = [incoming]
+        # The assertions only check sizes, so an int can not be ensured to be bytes
+        if len(incoming) != len(types) or not all(
+            getattr(i, "avm_type", i) in (t.avm_type, AVMType.any)
+            for i, t in zip(incoming, types)
+        ):
+            raise CompileError(
+                f"Unexpected types for {self.name} of {self.args[0].tealish()}",
+                node=self,
+            )
         self.expression = TypeAssertionWrapper(self.args[0], types, return_val=True)
         self.type = types[0] if len(types) == 1 else types
 
-- 
2.43.0


From 1f27eb2813ed6434c25f1108ef1f8dcab20b5ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:23 +0000
Subject: [PATCH 60/60] fix: EnsureType of a box variable asserts the size of
 its key

---
 tealish/stdlib.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 3a7ca84..a19f44a 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -10,6 +10,7 @@ from tealish.types import (
     AVMType,
     AnyType,
     BigIntType,
+    BoxType,
     BytesType,
     IntType,
     TealishType,
@@ -297,7 +298,11 @@ class TypeAssertionWrapper(BaseNode):
             if (
                 isinstance(type, BytesType)
                 and type.size
-                and type.size != self.incoming_types[i].size
+                and (
+                    type.size != self.incoming_types[i].size
+                    # The value of a box variable is the box key, of any size
+                    or isinstance(self.incoming_types[i], BoxType)
+                )
             ):
                 if self.dup:
                     # If this has a return type duplicate the value so there is something left to return
-- 
2.43.0

