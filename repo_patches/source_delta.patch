From eba208fd647c0adaa3e7c5b0ab3c58840932bfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 1/5] fix: bail out on deeply nested input instead of
 overflowing the stack

---
 src/demangler.rs | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index fc12d3c..046c551 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -243,6 +243,7 @@ pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     allocator: &'alloc Bump,
     cache: NodeCache<'alloc>,
     backrefs: BackrefContext,
+    depth: usize,
     flags: OutputFlags,
 }
 
@@ -257,6 +258,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             allocator,
             cache: NodeCache::new(allocator),
             backrefs: BackrefContext::default(),
+            depth: 0,
             flags,
         }
     }
@@ -291,14 +293,31 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         }
     }
 
+    // Symbols, types and template names nest inside of one another. Every level of nesting
+    // costs stack space, both here and when the result is printed, so there has to be a limit.
+    fn enter_nested(&mut self) -> Result<()> {
+        const MAX_DEPTH: usize = 256;
+        if self.depth >= MAX_DEPTH {
+            // a mangled string that is nested this deep is probably malformed... bail
+            return Err(Error::MaliciousInput);
+        }
+        self.depth += 1;
+        Ok(())
+    }
+
+    fn leave_nested(&mut self) {
+        self.depth -= 1;
+    }
+
     fn do_parse(&mut self) -> Result<NodeHandle<ISymbolNode>> {
+        self.enter_nested()?;
         // Typeinfo names are strings stored in RTTI data. They're not symbol names.
         // It's still useful to demangle them. They're the only demangled entity
         // that doesn't start with a "?" but a ".".
-        if self.mangled_name.starts_with(".") {
-            self.demangle_typeinfo_name().map(Into::into)
+        let symbol = if self.mangled_name.starts_with(".") {
+            self.demangle_typeinfo_name()?.into()
         } else if self.mangled_name.starts_with("??@") {
-            self.demangle_md5_name().map(Into::into)
+            self.demangle_md5_name()?.into()
         } else {
             self.mangled_name
                 .try_consume_char('?')
@@ -306,11 +325,13 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             // ?$ is a template instantiation, but all other names that start with ? are
             // operators / special names.
             if let Some(si) = self.demangle_special_intrinsic()? {
-                Ok(si)
+                si
             } else {
-                self.demangle_declarator()
+                self.demangle_declarator()?
             }
-        }
+        };
+        self.leave_nested();
+        Ok(symbol)
     }
 
     fn demangle_encoded_symbol(
@@ -544,6 +565,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     // <variable-type> ::= <type> <cvr-qualifiers>
     //                 ::= <type> <pointee-cvr-qualifiers> # pointers, references
     fn demangle_type(&mut self, qmm: QualifierMangleMode) -> Result<NodeHandle<ITypeNode>> {
+        self.enter_nested()?;
         let quals = match qmm {
             QualifierMangleMode::Mangle => self.demangle_qualifiers()?.0,
             QualifierMangleMode::Result => {
@@ -585,6 +607,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         }?;
 
         ty.resolve_mut(&mut self.cache).append_quals(quals);
+        self.leave_nested();
         Ok(ty)
     }
 
@@ -1253,6 +1276,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         &mut self,
         nbb: NameBackrefBehavior,
     ) -> Result<NodeHandle<IIdentifierNode>> {
+        self.enter_nested()?;
         self.mangled_name
             .try_consume_str("?$")
             .ok_or(Error::InvalidTemplateInstantiationName)?;
@@ -1281,6 +1305,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             self.memorize_identifier(identifier)?;
         }
 
+        self.leave_nested();
         Ok(identifier)
     }
 
-- 
2.43.0


From 47a1b320da1e09d93d20471163940f9f95cbea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 2/5] fix: don't print noexcept of the primary declaration with
 NAME_ONLY

---
 src/nodes/derived.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 6b1dcd1..79c0481 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -246,7 +246,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if self.is_noexcept {
+        if self.is_noexcept && (is_function_ptr || !flags.name_only()) {
             write!(ob, " noexcept")?;
         }
 
-- 
2.43.0


From 321676361e655ac16c035ca53aa8658546dbbfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 3/5] fix: print the return type of function pointers in full
 with NAME_ONLY

---
 src/nodes/derived.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 79c0481..5d88de8 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -258,7 +258,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_return_type() && !flags.name_only() {
+        if !flags.no_return_type() && (is_function_ptr || !flags.name_only()) {
             if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {
                 return_type.output_post(cache, ob, flags)?;
             }
-- 
2.43.0


From 962ac2522f36c7dc92a6767953f16b3705d5fb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 4/5] fix: don't leave a stray space behind for qualifiers
 which NO_MS_KEYWORDS suppresses

---
 src/nodes/enums.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/nodes/enums.rs b/src/nodes/enums.rs
index 70abf2f..18deec0 100644
--- a/src/nodes/enums.rs
+++ b/src/nodes/enums.rs
@@ -51,14 +51,16 @@ enum SingleQualifier {
 }
 
 impl SingleQualifier {
+    #[must_use]
+    fn is_suppressed(self, flags: OutputFlags) -> bool {
+        matches!(self, Self::Restrict) && flags.no_ms_keywords()
+    }
+
     fn output_single_qualifier(self, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
         let qualifier = match self {
             Self::Const => "const",
             Self::Volatile => "volatile",
             Self::Restrict => {
-                if flags.no_ms_keywords() {
-                    return Ok(());
-                }
                 if flags.no_leading_underscores() {
                     "restrict"
                 } else {
@@ -122,7 +124,7 @@ impl Qualifiers {
         mask: SingleQualifier,
         needs_space: bool,
     ) -> Result<bool> {
-        if !self.contains(mask.into()) {
+        if !self.contains(mask.into()) || mask.is_suppressed(flags) {
             return Ok(needs_space);
         }
 
-- 
2.43.0


From fba4335a388c44f294a15af0613a4880525fd726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 5/5] fix: tell names apart regardless of the output flags

---
 src/demangler.rs     | 53 ++++++++++++++++++++++++++++++++++----------
 src/nodes/derived.rs |  9 +++++++-
 2 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 046c551..147aece 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -1114,7 +1114,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
 
     // First 10 strings can be referenced by special BackReferences ?0, ?1, ..., ?9.
     // Memorize it.
-    fn memorize_string(&mut self, s: &'alloc str) -> Result<()> {
+    fn memorize_string(&mut self, s: &'alloc str, styled: Option<&'alloc str>) -> Result<()> {
         if !self.backrefs.names.is_full()
             && self
                 .backrefs
@@ -1124,6 +1124,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         {
             let name = self.cache.intern(NamedIdentifierNode {
                 name: s,
+                styled_name: styled,
                 ..Default::default()
             })?;
             // SAFETY: we just verified the array is not full
@@ -1134,15 +1135,30 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
 
     fn memorize_identifier(&mut self, identifier: NodeHandle<IIdentifierNode>) -> Result<()> {
         // Render this class template name into a string buffer so that we can
-        // memorize it for the purpose of back-referencing.
+        // memorize it for the purpose of back-referencing. Names which only look the
+        // same because of the output flags still count as different names.
+        let name = self.render_identifier(identifier, OutputFlags::default())?;
+        let styled_name = if self.flags == OutputFlags::default() {
+            None
+        } else {
+            Some(self.render_identifier(identifier, self.flags)?)
+        };
+        self.memorize_string(name, styled_name)
+    }
+
+    fn render_identifier(
+        &self,
+        identifier: NodeHandle<IIdentifierNode>,
+        flags: OutputFlags,
+    ) -> Result<&'alloc str> {
         let mut ob = {
             let ob = alloc::new_vec(self.allocator);
             BufWriter::new(ob)
         };
         identifier
             .resolve(&self.cache)
-            .output(&self.cache, &mut ob, self.flags)?;
-        self.memorize_string(ob.try_into()?)
+            .output(&self.cache, &mut ob, flags)?;
+        Ok(ob.try_into()?)
     }
 
     // Parses a type name in the form of A@B@C@@ which represents C::B::A.
@@ -1779,7 +1795,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             .mangled_name
             .try_consume_n_bytes(pos)
             .ok_or(Error::InvalidAnonymousNamespaceName)?;
-        self.memorize_string(namespace_key)?;
+        self.memorize_string(namespace_key, None)?;
         self.mangled_name
             .try_consume_char('@')
             .ok_or(Error::InvalidAnonymousNamespaceName)?;
@@ -1803,19 +1819,32 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         self.mangled_name
             .try_consume_char('?')
             .ok_or(Error::InvalidLocallyScopedNamePiece)?;
-        let scope = self.do_parse()?.resolve(&self.cache);
+        let scope = self.do_parse()?;
+        identifier.name = self.render_local_scope(scope, number, OutputFlags::default())?;
+        if self.flags != OutputFlags::default() {
+            identifier.styled_name = Some(self.render_local_scope(scope, number, self.flags)?);
+        }
 
-        // Render the parent symbol's name into a buffer.
+        self.cache.intern(identifier)
+    }
+
+    // Render the parent symbol's name into a buffer.
+    fn render_local_scope(
+        &self,
+        scope: NodeHandle<ISymbolNode>,
+        number: u64,
+        flags: OutputFlags,
+    ) -> Result<&'alloc str> {
         let mut ob = {
             let ob = alloc::new_vec(self.allocator);
             BufWriter::new(ob)
         };
         write!(ob, "`")?;
-        scope.output(&self.cache, &mut ob, self.flags)?;
+        scope
+            .resolve(&self.cache)
+            .output(&self.cache, &mut ob, flags)?;
         write!(ob, "'::`{number}'")?;
-
-        identifier.name = ob.try_into()?;
-        self.cache.intern(identifier)
+        Ok(ob.try_into()?)
     }
 
     fn demangle_string_literal(&mut self) -> Result<NodeHandle<EncodedStringLiteral>> {
@@ -1963,7 +1992,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
                 .try_consume_char('@')
                 .ok_or(Error::InvalidSimpleString)?;
             if memorize {
-                self.memorize_string(string)?;
+                self.memorize_string(string, None)?;
             }
             Ok(string)
         }
diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 5d88de8..4e386ab 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -738,12 +738,19 @@ impl WriteableNode for DynamicStructorIdentifierNode {
 #[derive(Clone, Default)]
 pub(crate) struct NamedIdentifierNode<'alloc> {
     pub(crate) template_params: TemplateParameters,
+    // The name, spelled out in full. Tells names apart, whatever the output flags are.
     pub(crate) name: &'alloc str,
+    // How to print the name under the user's output flags, if they make a difference.
+    pub(crate) styled_name: Option<&'alloc str>,
 }
 
 impl WriteableNode for NamedIdentifierNode<'_> {
     fn output(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
-        write!(ob, "{}", self.name)?;
+        let name = match self.styled_name {
+            Some(styled_name) if flags != OutputFlags::default() => styled_name,
+            _ => self.name,
+        };
+        write!(ob, "{name}")?;
         self.template_params.output(cache, ob, flags)
     }
 }
-- 
2.43.0

