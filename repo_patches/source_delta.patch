From 5fe92208c6a1381ae67eb49d6664955a1136bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 01/16] fix: don't revalidate the whole output buffer to read
 its last char

Reading the last char ran from_utf8 over everything written so far, on every
space/comma decision, which made printing quadratic in the output size: a
3 KB symbol could keep demangle busy for minutes.
---
 src/demangler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index fc12d3c..787235e 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -119,7 +119,11 @@ mod writing {
         }
 
         fn last_char(&self) -> Option<char> {
-            match std::str::from_utf8(self.as_bytes()) {
+            // only decode the final char: callers ask for this constantly, so we can't
+            // afford to validate everything which has already been written
+            let bytes = self.as_bytes();
+            let start = bytes.iter().rposition(|&x| !(0x80..0xC0).contains(&x))?;
+            match std::str::from_utf8(&bytes[start..]) {
                 Ok(string) => string.chars().next_back(),
                 Err(_) => None,
             }
-- 
2.43.0


From 4ce5ffe4e80c211fc72f8651d571dd0a6355aed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 02/16] fix: bound the parser's recursion instead of
 overflowing the stack

Deeply nested types, template names and symbols recursed without limit
before any node was interned, so the node limit never triggered and the
process aborted.
---
 src/demangler.rs | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 787235e..5827276 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -242,12 +242,17 @@ enum FunctionIdentifierCodeGroup {
     DoubleUnder,
 }
 
+// A mangled string which nests deeper than this is probably malformed. We need to bail
+// before the recursion exhausts the stack, because that can't be recovered from.
+const MAX_RECURSION_DEPTH: usize = 1 << 8;
+
 pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     mangled_name: MangledString<'string>,
     allocator: &'alloc Bump,
     cache: NodeCache<'alloc>,
     backrefs: BackrefContext,
     flags: OutputFlags,
+    depth: usize,
 }
 
 impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
@@ -262,6 +267,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             cache: NodeCache::new(allocator),
             backrefs: BackrefContext::default(),
             flags,
+            depth: 0,
         }
     }
 
@@ -295,11 +301,27 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         }
     }
 
+    // Every cycle in the grammar goes through a symbol, a type, or a template
+    // instantiation, so guarding these is enough to bound the recursion.
+    fn enter_recursion(&mut self) -> Result<()> {
+        if self.depth < MAX_RECURSION_DEPTH {
+            self.depth += 1;
+            Ok(())
+        } else {
+            Err(Error::MaliciousInput)
+        }
+    }
+
+    fn leave_recursion(&mut self) {
+        self.depth -= 1;
+    }
+
     fn do_parse(&mut self) -> Result<NodeHandle<ISymbolNode>> {
+        self.enter_recursion()?;
         // Typeinfo names are strings stored in RTTI data. They're not symbol names.
         // It's still useful to demangle them. They're the only demangled entity
         // that doesn't start with a "?" but a ".".
-        if self.mangled_name.starts_with(".") {
+        let symbol = if self.mangled_name.starts_with(".") {
             self.demangle_typeinfo_name().map(Into::into)
         } else if self.mangled_name.starts_with("??@") {
             self.demangle_md5_name().map(Into::into)
@@ -314,7 +336,10 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             } else {
                 self.demangle_declarator()
             }
-        }
+        }?;
+
+        self.leave_recursion();
+        Ok(symbol)
     }
 
     fn demangle_encoded_symbol(
@@ -548,6 +573,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     // <variable-type> ::= <type> <cvr-qualifiers>
     //                 ::= <type> <pointee-cvr-qualifiers> # pointers, references
     fn demangle_type(&mut self, qmm: QualifierMangleMode) -> Result<NodeHandle<ITypeNode>> {
+        self.enter_recursion()?;
         let quals = match qmm {
             QualifierMangleMode::Mangle => self.demangle_qualifiers()?.0,
             QualifierMangleMode::Result => {
@@ -589,6 +615,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         }?;
 
         ty.resolve_mut(&mut self.cache).append_quals(quals);
+        self.leave_recursion();
         Ok(ty)
     }
 
@@ -1260,6 +1287,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         self.mangled_name
             .try_consume_str("?$")
             .ok_or(Error::InvalidTemplateInstantiationName)?;
+        self.enter_recursion()?;
 
         let outer_context = mem::take(&mut self.backrefs);
         let identifier = self.demangle_unqualified_symbol_name(NameBackrefBehavior::NBB_Simple)?;
@@ -1285,6 +1313,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             self.memorize_identifier(identifier)?;
         }
 
+        self.leave_recursion();
         Ok(identifier)
     }
 
-- 
2.43.0


From b84b0dc46dc76378f6545514b526747d2aaaa4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 03/16] fix: number name backrefs independently of the output
 flags

Template names were deduplicated by their rendering under the caller's
flags, so names which only differ in a suppressed part (e.g. A<struct B>
and A<class B> with NO_TAG_SPECIFIER) collapsed and every later backref
resolved to the wrong name, or to none.
---
 src/demangler.rs     | 59 ++++++++++++++++++++++++++++++++------------
 src/nodes/derived.rs | 18 +++++++++++++-
 2 files changed, 60 insertions(+), 17 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 5827276..a4ab664 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -1123,15 +1123,27 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     // First 10 strings can be referenced by special BackReferences ?0, ?1, ..., ?9.
     // Memorize it.
     fn memorize_string(&mut self, s: &'alloc str) -> Result<()> {
+        self.memorize_name(s, None)
+    }
+
+    // Names are told apart by how they're printed by default. Suppressing parts of the
+    // output must not make distinct names look alike, because that would renumber the
+    // backrefs.
+    fn memorize_name(
+        &mut self,
+        name: &'alloc str,
+        default_name: Option<&'alloc str>,
+    ) -> Result<()> {
         if !self.backrefs.names.is_full()
             && self
                 .backrefs
                 .names
                 .iter()
-                .all(|x| x.resolve(&self.cache).name != s)
+                .all(|x| x.resolve(&self.cache).default_name() != default_name.unwrap_or(name))
         {
             let name = self.cache.intern(NamedIdentifierNode {
-                name: s,
+                name,
+                default_name,
                 ..Default::default()
             })?;
             // SAFETY: we just verified the array is not full
@@ -1143,14 +1155,23 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     fn memorize_identifier(&mut self, identifier: NodeHandle<IIdentifierNode>) -> Result<()> {
         // Render this class template name into a string buffer so that we can
         // memorize it for the purpose of back-referencing.
-        let mut ob = {
-            let ob = alloc::new_vec(self.allocator);
-            BufWriter::new(ob)
+        let render = |flags| -> Result<&'alloc str> {
+            let mut ob = {
+                let ob = alloc::new_vec(self.allocator);
+                BufWriter::new(ob)
+            };
+            identifier
+                .resolve(&self.cache)
+                .output(&self.cache, &mut ob, flags)?;
+            Ok(ob.try_into()?)
         };
-        identifier
-            .resolve(&self.cache)
-            .output(&self.cache, &mut ob, self.flags)?;
-        self.memorize_string(ob.try_into()?)
+        let name = render(self.flags)?;
+        let default_name = if self.flags.is_empty() {
+            None
+        } else {
+            Some(render(OutputFlags::default())?)
+        };
+        self.memorize_name(name, default_name)
     }
 
     // Parses a type name in the form of A@B@C@@ which represents C::B::A.
@@ -1814,15 +1835,21 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         let scope = self.do_parse()?.resolve(&self.cache);
 
         // Render the parent symbol's name into a buffer.
-        let mut ob = {
-            let ob = alloc::new_vec(self.allocator);
-            BufWriter::new(ob)
+        let render = |flags| -> Result<&'alloc str> {
+            let mut ob = {
+                let ob = alloc::new_vec(self.allocator);
+                BufWriter::new(ob)
+            };
+            write!(ob, "`")?;
+            scope.output(&self.cache, &mut ob, flags)?;
+            write!(ob, "'::`{number}'")?;
+            Ok(ob.try_into()?)
         };
-        write!(ob, "`")?;
-        scope.output(&self.cache, &mut ob, self.flags)?;
-        write!(ob, "'::`{number}'")?;
 
-        identifier.name = ob.try_into()?;
+        identifier.name = render(self.flags)?;
+        if !self.flags.is_empty() {
+            identifier.default_name = Some(render(OutputFlags::default())?);
+        }
         self.cache.intern(identifier)
     }
 
diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 6b1dcd1..c73aa38 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -739,11 +739,27 @@ impl WriteableNode for DynamicStructorIdentifierNode {
 pub(crate) struct NamedIdentifierNode<'alloc> {
     pub(crate) template_params: TemplateParameters,
     pub(crate) name: &'alloc str,
+
+    // How the name is printed by default, for names which were rendered with other
+    // flags.
+    pub(crate) default_name: Option<&'alloc str>,
+}
+
+impl<'alloc> NamedIdentifierNode<'alloc> {
+    #[must_use]
+    pub(crate) fn default_name(&self) -> &'alloc str {
+        self.default_name.unwrap_or(self.name)
+    }
 }
 
 impl WriteableNode for NamedIdentifierNode<'_> {
     fn output(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
-        write!(ob, "{}", self.name)?;
+        let name = if flags.is_empty() {
+            self.default_name()
+        } else {
+            self.name
+        };
+        write!(ob, "{name}")?;
         self.template_params.output(cache, ob, flags)
     }
 }
-- 
2.43.0


From 6516afc2712614b9bf05bf0cfae7ee7f3ab77579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 04/16] fix: print the whole return type of function pointers
 with NAME_ONLY

Only the leading half of the return type was printed, which left unbalanced
parentheses for function pointers which return function or array pointers.
---
 src/nodes/derived.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index c73aa38..1b14183 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -258,7 +258,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_return_type() && !flags.name_only() {
+        if !flags.no_return_type() && (is_function_ptr || !flags.name_only()) {
             if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {
                 return_type.output_post(cache, ob, flags)?;
             }
-- 
2.43.0


From c84cb9d3163e2ce37f2568a85b3327c6af6660c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 05/16] fix: don't print noexcept with NAME_ONLY

It's a part of the function's type, and not of its name.
---
 src/nodes/derived.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 1b14183..34307e2 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -246,7 +246,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if self.is_noexcept {
+        if self.is_noexcept && (is_function_ptr || !flags.name_only()) {
             write!(ob, " noexcept")?;
         }
 
-- 
2.43.0


From e71778633b1f4c440a302b539a6f52778d9f5029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 06/16] fix: don't leave a trailing space behind when
 suppressing __restrict

---
 src/nodes/enums.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/nodes/enums.rs b/src/nodes/enums.rs
index 70abf2f..18deec0 100644
--- a/src/nodes/enums.rs
+++ b/src/nodes/enums.rs
@@ -51,14 +51,16 @@ enum SingleQualifier {
 }
 
 impl SingleQualifier {
+    #[must_use]
+    fn is_suppressed(self, flags: OutputFlags) -> bool {
+        matches!(self, Self::Restrict) && flags.no_ms_keywords()
+    }
+
     fn output_single_qualifier(self, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
         let qualifier = match self {
             Self::Const => "const",
             Self::Volatile => "volatile",
             Self::Restrict => {
-                if flags.no_ms_keywords() {
-                    return Ok(());
-                }
                 if flags.no_leading_underscores() {
                     "restrict"
                 } else {
@@ -122,7 +124,7 @@ impl Qualifiers {
         mask: SingleQualifier,
         needs_space: bool,
     ) -> Result<bool> {
-        if !self.contains(mask.into()) {
+        if !self.contains(mask.into()) || mask.is_suppressed(flags) {
             return Ok(needs_space);
         }
 
-- 
2.43.0


From 914b48710d9a47c9a636d0a7e003f1247de37b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 07/16] fix: refuse numbers which don't fit into 64 bits
 instead of dropping their upper digits

---
 src/demangler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index a4ab664..f6b86fd 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -1091,7 +1091,11 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
                     // https://github.com/llvm/llvm-project/blob/bafda89a0944d947fc4b3b5663185e07a397ac30/llvm/lib/Demangle/MicrosoftDemangle.cpp#L932-L958
                     '@' => break Ok((number, is_negative)),
                     c if c.is_rebased_ascii_hexdigit() => {
-                        number = number.wrapping_shl(4) + u64::from(c as u8 - b'A');
+                        if number >> (u64::BITS - 4) != 0 {
+                            // too large, don't lose the upper digits
+                            break Err(Error::InvalidNumber);
+                        }
+                        number = (number << 4) + u64::from(c as u8 - b'A');
                     }
                     _ => break Err(Error::InvalidNumber),
                 }
-- 
2.43.0


From fe6dbfe7253bef9fe063eaabbaeab6f24752fd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 08/16] fix: don't print two spaces after the Swift calling
 conventions in function pointers

---
 src/nodes/derived.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 34307e2..008e716 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -454,7 +454,9 @@ impl WriteableTypeNode for PointerTypeNode {
                 if !flags.no_calling_convention() && !flags.no_ms_keywords() {
                     if let Some(call_convention) = sig.as_node().call_convention {
                         call_convention.output(ob, flags)?;
-                        write!(ob, " ")?;
+                        if ob.last_char() != Some(' ') {
+                            write!(ob, " ")?;
+                        }
                     }
                 }
             }
-- 
2.43.0


From 1a704a5845f5ba7ce260fd81433d44a3eab6e1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 09/16] fix: print function types in template arguments whole
 with NAME_ONLY

---
 src/nodes/derived.rs | 65 ++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 008e716..54f6395 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -177,18 +177,14 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_return_type() && (is_function_ptr || !flags.name_only()) {
+        if !flags.no_return_type() {
             if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {
                 return_type.output_pre(cache, ob, flags)?;
                 write!(ob, " ")?;
             }
         }
 
-        if !is_function_ptr
-            && !flags.no_calling_convention()
-            && !flags.no_ms_keywords()
-            && !flags.name_only()
-        {
+        if !is_function_ptr && !flags.no_calling_convention() && !flags.no_ms_keywords() {
             if let Some(call_convention) = self.call_convention {
                 call_convention.output(ob, flags)?;
             }
@@ -202,9 +198,8 @@ impl FunctionSignatureNode {
         cache: &NodeCache,
         ob: &mut dyn Writer,
         flags: OutputFlags,
-        is_function_ptr: bool,
     ) -> Result<()> {
-        if (is_function_ptr || !flags.name_only()) && !self.function_class.no_parameter_list() {
+        if !self.function_class.no_parameter_list() {
             write!(ob, "(")?;
             if let Some(params) = self.params.map(|x| x.resolve(cache)) {
                 params.output(cache, ob, flags)?;
@@ -221,7 +216,7 @@ impl FunctionSignatureNode {
             write!(ob, ")")?;
         }
 
-        if !flags.no_this_type() && !flags.name_only() {
+        if !flags.no_this_type() {
             if self.quals.is_const() {
                 write!(ob, " const")?;
             }
@@ -246,11 +241,11 @@ impl FunctionSignatureNode {
             }
         }
 
-        if self.is_noexcept && (is_function_ptr || !flags.name_only()) {
+        if self.is_noexcept {
             write!(ob, " noexcept")?;
         }
 
-        if !flags.no_this_type() && !flags.name_only() {
+        if !flags.no_this_type() {
             match self.ref_qualifier {
                 Some(FunctionRefQualifier::Reference) => write!(ob, " &")?,
                 Some(FunctionRefQualifier::RValueReference) => write!(ob, " &&")?,
@@ -258,7 +253,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_return_type() && (is_function_ptr || !flags.name_only()) {
+        if !flags.no_return_type() {
             if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {
                 return_type.output_post(cache, ob, flags)?;
             }
@@ -301,7 +296,7 @@ impl WriteableTypeNode for FunctionSignatureNode {
         ob: &mut dyn Writer,
         flags: OutputFlags,
     ) -> Result<()> {
-        self.do_output_post(cache, ob, flags, false)
+        self.do_output_post(cache, ob, flags)
     }
 }
 
@@ -334,13 +329,7 @@ impl ThunkSignatureNode {
             .do_output_pre(cache, ob, flags, is_function_ptr)
     }
 
-    fn do_output_post(
-        &self,
-        cache: &NodeCache,
-        ob: &mut dyn Writer,
-        flags: OutputFlags,
-        is_function_ptr: bool,
-    ) -> Result<()> {
+    fn output_adjustor(&self, ob: &mut dyn Writer) -> Result<()> {
         let ThisAdjustor {
             static_offset,
             vbptr_offset,
@@ -358,8 +347,17 @@ impl ThunkSignatureNode {
             }
         }
 
-        self.function_node
-            .do_output_post(cache, ob, flags, is_function_ptr)
+        Ok(())
+    }
+
+    fn do_output_post(
+        &self,
+        cache: &NodeCache,
+        ob: &mut dyn Writer,
+        flags: OutputFlags,
+    ) -> Result<()> {
+        self.output_adjustor(ob)?;
+        self.function_node.do_output_post(cache, ob, flags)
     }
 }
 
@@ -394,7 +392,7 @@ impl WriteableTypeNode for ThunkSignatureNode {
         ob: &mut dyn Writer,
         flags: OutputFlags,
     ) -> Result<()> {
-        self.do_output_post(cache, ob, flags, false)
+        self.do_output_post(cache, ob, flags)
     }
 }
 
@@ -492,12 +490,8 @@ impl WriteableTypeNode for PointerTypeNode {
         }
         if let TypeNode::Signature(sig) = pointee {
             match sig {
-                SignatureNode::FunctionSignature(func) => {
-                    func.do_output_post(cache, ob, flags, true)
-                }
-                SignatureNode::ThunkSignature(thunk) => {
-                    thunk.do_output_post(cache, ob, flags, true)
-                }
+                SignatureNode::FunctionSignature(func) => func.do_output_post(cache, ob, flags),
+                SignatureNode::ThunkSignature(thunk) => thunk.do_output_post(cache, ob, flags),
             }
         } else {
             pointee.output_post(cache, ob, flags)
@@ -1254,11 +1248,18 @@ pub(crate) struct FunctionSymbolNode {
 
 impl WriteableNode for FunctionSymbolNode {
     fn output(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
-        self.signature.resolve(cache).output_pre(cache, ob, flags)?;
-        super::output_space_if_necessary(ob)?;
+        let signature = self.signature.resolve(cache);
+        if !flags.name_only() {
+            signature.output_pre(cache, ob, flags)?;
+            super::output_space_if_necessary(ob)?;
+        }
         if let Some(name) = self.name {
             name.resolve(cache).output(cache, ob, flags)?;
         }
-        self.signature.resolve(cache).output_post(cache, ob, flags)
+        match signature {
+            _ if !flags.name_only() => signature.output_post(cache, ob, flags),
+            SignatureNode::FunctionSignature(_) => Ok(()),
+            SignatureNode::ThunkSignature(thunk) => thunk.output_adjustor(ob),
+        }
     }
 }
-- 
2.43.0


From 97d37c9ecc582a57176ae67d042e3c4c59d28a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:30 +0000
Subject: [PATCH 10/16] fix: bound what's rendered while parsing, for names
 which contain each other

Template names and function-local scopes are rendered while parsing, so a symbol which
nests them renders the innermost name again at every level. A symbol of 800 bytes could
take seconds and a quarter of a gigabyte that way, and longer ones more.
---
 src/demangler.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/demangler.rs b/src/demangler.rs
index f6b86fd..141fa42 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -246,6 +246,10 @@ enum FunctionIdentifierCodeGroup {
 // before the recursion exhausts the stack, because that can't be recovered from.
 const MAX_RECURSION_DEPTH: usize = 1 << 8;
 
+// Names are rendered while parsing, and a name which contains another one renders that
+// one again. No sane symbol needs to render many times what we're willing to output.
+const MAX_RENDERED_LEN: usize = 1 << 24;
+
 pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     mangled_name: MangledString<'string>,
     allocator: &'alloc Bump,
@@ -253,6 +257,7 @@ pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     backrefs: BackrefContext,
     flags: OutputFlags,
     depth: usize,
+    rendered_len: usize,
 }
 
 impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
@@ -268,6 +273,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             backrefs: BackrefContext::default(),
             flags,
             depth: 0,
+            rendered_len: 0,
         }
     }
 
@@ -316,6 +322,15 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         self.depth -= 1;
     }
 
+    fn charge_rendered(&mut self, rendered: &str) -> Result<()> {
+        self.rendered_len += rendered.len();
+        if self.rendered_len < MAX_RENDERED_LEN {
+            Ok(())
+        } else {
+            Err(Error::MaliciousInput)
+        }
+    }
+
     fn do_parse(&mut self) -> Result<NodeHandle<ISymbolNode>> {
         self.enter_recursion()?;
         // Typeinfo names are strings stored in RTTI data. They're not symbol names.
@@ -1175,6 +1190,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         } else {
             Some(render(OutputFlags::default())?)
         };
+        self.charge_rendered(default_name.unwrap_or(name))?;
         self.memorize_name(name, default_name)
     }
 
@@ -1854,6 +1870,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         if !self.flags.is_empty() {
             identifier.default_name = Some(render(OutputFlags::default())?);
         }
+        self.charge_rendered(identifier.default_name())?;
         self.cache.intern(identifier)
     }
 
-- 
2.43.0


From 28ccc8c8399f044299e8f08a80d466833eaa693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:12 +0000
Subject: [PATCH 11/16] fix: keep identifiers which end in `_` or `$` apart
 from what follows

---
 src/nodes/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nodes/mod.rs b/src/nodes/mod.rs
index 647d303..4230e9b 100644
--- a/src/nodes/mod.rs
+++ b/src/nodes/mod.rs
@@ -113,8 +113,10 @@ pub(crate) use intermediate::{
 use std::mem;
 
 fn output_space_if_necessary(ob: &mut dyn Writer) -> Result<()> {
+    // identifiers may end in more than letters and digits
+    let is_identifier = |c: char| c.is_alphanumeric() || matches!(c, '_' | '$') || !c.is_ascii();
     if let Some(c) = ob.last_char() {
-        if c.is_alphanumeric() || c == '>' {
+        if is_identifier(c) || c == '>' {
             write!(ob, " ")?;
         }
     }
-- 
2.43.0


From d4f73a3cce7e272acaf715e8c20f5db2f8a303cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:13 +0000
Subject: [PATCH 12/16] fix: print the qualifiers of custom types

---
 src/nodes/derived.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 54f6395..b6c18b6 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -628,7 +628,8 @@ impl WriteableNode for CustomTypeNode {
 
 impl WriteableTypeNode for CustomTypeNode {
     fn output_pre(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
-        self.identifier.resolve(cache).output(cache, ob, flags)
+        self.identifier.resolve(cache).output(cache, ob, flags)?;
+        self.quals.output(ob, flags, true, false)
     }
 
     fn output_post(&self, _: &NodeCache, _: &mut dyn Writer, _: OutputFlags) -> Result<()> {
-- 
2.43.0


From 4e220a7de4e2209cb5e57a104a266b9008880b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 13/16] fix: print back-references to anonymous namespaces as
 what they refer to

---
 src/demangler.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 141fa42..c9da0cc 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -199,12 +199,13 @@ mod writing {
 use writing::BufWriter;
 
 #[derive(Default)]
-struct BackrefContext {
+struct BackrefContext<'alloc> {
     function_params: ArrayVec<NodeHandle<ITypeNode>, 10>,
 
     // The first 10 BackReferences in a mangled name can be back-referenced by
-    // special name @[0-9]. This is a storage for the first 10 BackReferences.
-    names: ArrayVec<NodeHandle<NamedIdentifier>, 10>,
+    // special name @[0-9]. This is a storage for the first 10 BackReferences,
+    // each with the key which tells it apart from the others.
+    names: ArrayVec<(NodeHandle<NamedIdentifier>, &'alloc str), 10>,
 }
 
 #[derive(Clone, Copy)]
@@ -254,7 +255,7 @@ pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     mangled_name: MangledString<'string>,
     allocator: &'alloc Bump,
     cache: NodeCache<'alloc>,
-    backrefs: BackrefContext,
+    backrefs: BackrefContext<'alloc>,
     flags: OutputFlags,
     depth: usize,
     rendered_len: usize,
@@ -1142,23 +1143,20 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     // First 10 strings can be referenced by special BackReferences ?0, ?1, ..., ?9.
     // Memorize it.
     fn memorize_string(&mut self, s: &'alloc str) -> Result<()> {
-        self.memorize_name(s, None)
+        self.memorize_name(s, None, s)
     }
 
     // Names are told apart by how they're printed by default. Suppressing parts of the
     // output must not make distinct names look alike, because that would renumber the
-    // backrefs.
+    // backrefs. Anonymous namespaces always look alike, so they have a key of their own.
     fn memorize_name(
         &mut self,
         name: &'alloc str,
         default_name: Option<&'alloc str>,
+        key: &'alloc str,
     ) -> Result<()> {
         if !self.backrefs.names.is_full()
-            && self
-                .backrefs
-                .names
-                .iter()
-                .all(|x| x.resolve(&self.cache).default_name() != default_name.unwrap_or(name))
+            && self.backrefs.names.iter().all(|(_, other)| *other != key)
         {
             let name = self.cache.intern(NamedIdentifierNode {
                 name,
@@ -1166,7 +1164,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
                 ..Default::default()
             })?;
             // SAFETY: we just verified the array is not full
-            unsafe { self.backrefs.names.push_unchecked(name) };
+            unsafe { self.backrefs.names.push_unchecked((name, key)) };
         }
         Ok(())
     }
@@ -1190,8 +1188,9 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         } else {
             Some(render(OutputFlags::default())?)
         };
-        self.charge_rendered(default_name.unwrap_or(name))?;
-        self.memorize_name(name, default_name)
+        let key = default_name.unwrap_or(name);
+        self.charge_rendered(key)?;
+        self.memorize_name(name, default_name, key)
     }
 
     // Parses a type name in the form of A@B@C@@ which represents C::B::A.
@@ -1313,7 +1312,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             .try_consume_char_if(char::is_ascii_digit)
             .ok_or(Error::InvalidBackRef)?;
         let i = c as u8 - b'0';
-        let node = self
+        let (node, _) = self
             .backrefs
             .names
             .get(i as usize)
@@ -1828,12 +1827,13 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             .mangled_name
             .try_consume_n_bytes(pos)
             .ok_or(Error::InvalidAnonymousNamespaceName)?;
-        self.memorize_string(namespace_key)?;
+        let name = "`anonymous namespace'";
+        self.memorize_name(name, None, namespace_key)?;
         self.mangled_name
             .try_consume_char('@')
             .ok_or(Error::InvalidAnonymousNamespaceName)?;
         self.cache.intern(NamedIdentifierNode {
-            name: "`anonymous namespace'",
+            name,
             ..Default::default()
         })
     }
-- 
2.43.0


From acaaa92b134edd2b651ca177a034bd6556a0d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:15 +0000
Subject: [PATCH 14/16] fix: keep a data member's own qualifiers in pointers to
 it

The qualifiers of the pointee replaced those of its type, so that __restrict and
__unaligned were dropped from the type of a pointer to a member pointer.
---
 src/demangler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index c9da0cc..fd46a24 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -772,7 +772,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             let pointee = self.demangle_type(QualifierMangleMode::Drop)?;
             pointee
                 .resolve_mut(&mut self.cache)
-                .set_quals(pointee_quals);
+                .append_quals(pointee_quals);
             (Some(class_parent), pointee)
         };
 
-- 
2.43.0


From 8d1165ab760ef704f05bac3a99e0412f68eebee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:26 +0000
Subject: [PATCH 15/16] fix: read dynamic initializers of a variable template's
 specializations

In `??__E?$vt@H@@YAXXZ` the ? begins the template's name; it was taken
for the mark of a static data member's declaration, so that such symbols
were refused.
---
 src/demangler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index fd46a24..6eccbbe 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -1744,7 +1744,9 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         &mut self,
         is_destructor: bool,
     ) -> Result<NodeHandle<FunctionSymbol>> {
-        let is_known_static_data_member = self.mangled_name.try_consume_char('?').is_some();
+        // A specialization of a variable template begins with a ? of its own.
+        let is_known_static_data_member = !self.mangled_name.starts_with("?$")
+            && self.mangled_name.try_consume_char('?').is_some();
         let symbol = self.demangle_declarator()?;
         if let Some(variable) = symbol.downcast::<VariableSymbol>(&self.cache) {
             // Older versions of clang mangled this type of symbol incorrectly. They
-- 
2.43.0


From 91e9148b4bd305d50940868fbc01bcf00b25b0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:54 +0000
Subject: [PATCH 16/16] fix: don't count operators and templates of functions
 among names

As template arguments, their addresses were counted among the names which
back-references refer to, so that the names of later arguments were wrong:
`??$g@U?$Y@$1??H@YAHUA@@0@ZUB@@PEAU2@@@@@YAXXZ` has a `struct B *`, not a
`struct operator+ *`.
---
 src/demangler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 6eccbbe..2c72ee4 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -981,7 +981,11 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
                                     .get_unqualified_identifier(&self.cache)
                             })
                             .ok_or(Error::InvalidTemplateParameterList)?;
-                        self.memorize_identifier(identifier)?;
+                        // Operators and templates of functions aren't counted among the
+                        // names which back-references refer to, templates of variables are.
+                        if symbol.downcast::<VariableSymbol>(&self.cache).is_some() {
+                            self.memorize_identifier(identifier)?;
+                        }
                         Some(symbol)
                     } else {
                         None
-- 
2.43.0

