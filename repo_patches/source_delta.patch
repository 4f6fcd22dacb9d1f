From 0963c82afeba5c758e2f193a4d9ad9dd5a08714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 01/20] fix: honour the converter's answer on entering an
 address type

---
 src/ast/visitor.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 8482719..caf175d 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -321,13 +321,11 @@ impl AstVisitor for NodeAddressType {
             self.identifier.visit(emitter)?;
 
             for field in &self.address_fields {
-                let ret = field.visit(emitter);
-
-                ret.as_ref()?;
+                field.visit(emitter)?;
             }
             ret
         } else {
-            Ok(TraversalResult::Continue)
+            ret
         }?;
         match children_ret {
             TraversalResult::Continue => emitter.emit_address_type(TreeTraversalMode::Exit, self),
-- 
2.43.0


From ba610c9037025b8fead19b2384e39d07d7c61259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 02/20] fix: report errors of builtin arguments and contract
 type arguments

---
 src/ast/visitor.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index caf175d..acadbd1 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -154,11 +154,10 @@ impl AstVisitor for NodeBuiltinArguments {
         // Call the visitor on all children of NodeBuiltinArguments if ret == Ok(TraversalResult::Continue)
         let children_ret = if ret == Ok(TraversalResult::Continue) {
             // Visit each of the arguments
-            self.arguments
-                .iter()
-                .map(|argument| argument.visit(emitter))
-                .find(|r| *r == Err(String::from("Failure")))
-                .unwrap_or(Ok(TraversalResult::Continue))
+            for argument in &self.arguments {
+                argument.visit(emitter)?;
+            }
+            Ok(TraversalResult::Continue)
         } else {
             ret
         }?;
@@ -492,11 +491,10 @@ impl AstVisitor for NodeContractTypeArguments {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_contract_type_arguments(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
-            self.type_arguments
-                .iter()
-                .map(|child| child.visit(emitter))
-                .find(|result| *result == Err("".into()))
-                .unwrap_or(Ok(TraversalResult::Continue))
+            for child in &self.type_arguments {
+                child.visit(emitter)?;
+            }
+            Ok(TraversalResult::Continue)
         } else {
             ret
         }?;
-- 
2.43.0


From d0a4848c47fdb5389309f3f571e641a540d10b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 03/20] fix: push each child's source position exactly once
 during traversal

---
 src/ast/visitor.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index acadbd1..5380595 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -430,7 +430,6 @@ impl AstVisitor for NodeMessageEntry {
                 }
                 NodeMessageEntry::MessageVariable(var_identifier1, var_identifier2) => {
                     var_identifier1.visit(emitter)?;
-                    emitter.push_source_position(&var_identifier2.start, &var_identifier2.end);
                     var_identifier2.visit(emitter)
                 }
             }
@@ -515,7 +514,6 @@ impl AstVisitor for NodeValueLiteral {
                 NodeValueLiteral::LiteralInt(type_name, _) => type_name.visit(emitter),
                 NodeValueLiteral::LiteralEmptyMap(type_map_key, type_map_value) => {
                     type_map_key.visit(emitter)?;
-                    emitter.push_source_position(&type_map_value.start, &type_map_value.end);
                     type_map_value.visit(emitter)
                 }
                 _ => Ok(TraversalResult::Continue),
@@ -598,8 +596,6 @@ impl AstVisitor for NodePatternMatchClause {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_pattern_match_clause(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
-            emitter
-                .push_source_position(&self.pattern_expression.start, &self.pattern_expression.end);
             match self.pattern_expression.visit(emitter) {
                 Err(msg) => Err(msg),
                 _ => match &self.statement_block {
-- 
2.43.0


From 2641a0aed37d649a7b0ab86af669a8fa5769c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 04/20] fix: visit every child of an AST node

---
 src/ast/visitor.rs | 55 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 5380595..518185e 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -340,13 +340,22 @@ impl AstVisitor for NodeFullExpression {
             match self {
                 NodeFullExpression::LocalVariableDeclaration {
                     expression,
+                    type_annotation,
                     containing_expression,
                     ..
                 } => {
+                    if let Some(type_annotation) = type_annotation {
+                        type_annotation.visit(emitter)?;
+                    }
                     expression.visit(emitter)?;
                     containing_expression.visit(emitter)
                 }
-                NodeFullExpression::FunctionDeclaration { expression, .. } => {
+                NodeFullExpression::FunctionDeclaration {
+                    type_annotation,
+                    expression,
+                    ..
+                } => {
+                    type_annotation.visit(emitter)?;
                     expression.visit(emitter)
                 }
                 NodeFullExpression::FunctionCall {
@@ -361,7 +370,12 @@ impl AstVisitor for NodeFullExpression {
                     Ok(TraversalResult::Continue)
                 }
                 NodeFullExpression::ExpressionAtomic(atom_expr) => atom_expr.visit(emitter),
-                NodeFullExpression::ExpressionBuiltin { xs, .. } => xs.visit(emitter),
+                NodeFullExpression::ExpressionBuiltin { targs, xs, .. } => {
+                    if let Some(targs) = targs {
+                        targs.visit(emitter)?;
+                    }
+                    xs.visit(emitter)
+                }
                 NodeFullExpression::Message(message_entries) => {
                     for entry in message_entries {
                         entry.visit(emitter)?;
@@ -383,10 +397,13 @@ impl AstVisitor for NodeFullExpression {
                 }
                 NodeFullExpression::ConstructorCall {
                     identifier_name,
+                    contract_type_arguments,
                     argument_list,
-                    ..
                 } => {
                     identifier_name.visit(emitter)?;
+                    if let Some(type_arguments) = contract_type_arguments {
+                        type_arguments.visit(emitter)?;
+                    }
                     for arg in argument_list {
                         arg.visit(emitter)?;
                     }
@@ -648,15 +665,29 @@ impl AstVisitor for NodeStatement {
                 NodeStatement::Bind {
                     right_hand_side, ..
                 } => right_hand_side.visit(emitter),
-                NodeStatement::ReadFromBC { arguments, .. } => {
+                NodeStatement::ReadFromBC {
+                    type_name,
+                    arguments,
+                    ..
+                } => {
+                    type_name.visit(emitter)?;
                     if let Some(arg) = arguments {
                         arg.visit(emitter)
                     } else {
                         Ok(TraversalResult::Continue)
                     }
                 }
+                NodeStatement::MapUpdate {
+                    keys,
+                    right_hand_side,
+                    ..
+                } => {
+                    for key in keys {
+                        key.visit(emitter)?;
+                    }
+                    right_hand_side.visit(emitter)
+                }
                 NodeStatement::MapGet { keys, .. }
-                | NodeStatement::MapUpdate { keys, .. }
                 | NodeStatement::MapGetExists { keys, .. }
                 | NodeStatement::MapUpdateDelete { keys, .. } => {
                     for key in keys {
@@ -953,6 +984,7 @@ impl AstVisitor for NodeLibraryDefinition {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_library_definition(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
+            self.name.visit(emitter)?;
             for definition in &self.definitions {
                 let result = definition.visit(emitter);
 
@@ -979,14 +1011,14 @@ impl AstVisitor for NodeLibrarySingleDefinition {
         let children_ret = if ret == Ok(TraversalResult::Continue) {
             match self {
                 NodeLibrarySingleDefinition::LetDefinition {
-                    variable_name: _,
-                    type_annotation: _,
+                    type_annotation,
                     expression,
+                    ..
                 } => {
-                    // TODO: Unused variables aboce
-                    let _ = expression.visit(emitter)?;
-
-                    unimplemented!()
+                    if let Some(type_annotation) = type_annotation {
+                        type_annotation.visit(emitter)?;
+                    }
+                    expression.visit(emitter)
                 }
                 NodeLibrarySingleDefinition::TypeDefinition(name, option_clause) => {
                     let result = name.visit(emitter);
@@ -1020,6 +1052,7 @@ impl AstVisitor for NodeContractDefinition {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_contract_definition(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
+            self.contract_name.visit(emitter)?;
             self.parameters.visit(emitter)?;
 
             if let Some(constraint) = &self.constraint {
-- 
2.43.0


From 3ba893e3f876485c5ecf75334dde6803b8cba3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 05/20] fix: do not panic on builtin type constructors without
 their arguments

---
 src/type.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/type.rs b/src/type.rs
index 79d2f6d..5f430a8 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -87,19 +87,30 @@ impl From<SrType> for Type {
             "ByStr" => Type::ByStr,
             "BNum" => Type::BNum,
             "Bool" => Type::Bool,
-            // TODO: Remove unwrap
-            "Option" => Type::Option(Box::new(type_definition.sub_types.pop().unwrap().into())),
-            "List" => Type::List(Box::new(type_definition.sub_types.pop().unwrap().into())),
-            "Pair" => {
-                let t2 = type_definition.sub_types.pop().unwrap();
-                let t1 = type_definition.sub_types.pop().unwrap();
-                Type::Pair(Box::new(t1.into()), Box::new(t2.into()))
-            }
-            "Map" => {
-                let value = type_definition.sub_types.pop().unwrap();
-                let key = type_definition.sub_types.pop().unwrap();
-                Type::Map(Box::new(key.into()), Box::new(value.into()))
-            }
+            "Option" => match type_definition.sub_types.pop() {
+                Some(t) => Type::Option(Box::new(t.into())),
+                None => Type::Other(type_definition.main_type),
+            },
+            "List" => match type_definition.sub_types.pop() {
+                Some(t) => Type::List(Box::new(t.into())),
+                None => Type::Other(type_definition.main_type),
+            },
+            "Pair" => match (
+                type_definition.sub_types.pop(),
+                type_definition.sub_types.pop(),
+            ) {
+                (Some(t2), Some(t1)) => Type::Pair(Box::new(t1.into()), Box::new(t2.into())),
+                _ => Type::Other(type_definition.main_type),
+            },
+            "Map" => match (
+                type_definition.sub_types.pop(),
+                type_definition.sub_types.pop(),
+            ) {
+                (Some(value), Some(key)) => {
+                    Type::Map(Box::new(key.into()), Box::new(value.into()))
+                }
+                _ => Type::Other(type_definition.main_type),
+            },
             "ByStr20" => type_definition
                 .address_type
                 .map_or(Type::ByStr20, |address_type| Type::ByStr20With {
-- 
2.43.0


From aafa374044adfc5bec7e95a171eaaf76f4e0bc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 06/20] fix: accept address types as map keys

---
 src/simplified_representation/emitter.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index ef4310e..f2ad0fd 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -162,14 +162,18 @@ impl AstConverting for SrEmitter {
         node: &NodeTypeMapKey,
     ) -> Result<TraversalResult, String> {
         match node {
-            NodeTypeMapKey::GenericMapKey(key) => key.visit(self)?,
-            NodeTypeMapKey::EnclosedGenericId(key) => key.visit(self)?,
-            NodeTypeMapKey::EnclosedAddressMapKeyType(key) => key.visit(self)?,
-            NodeTypeMapKey::AddressMapKeyType(key) => key.visit(self)?,
+            NodeTypeMapKey::GenericMapKey(key) | NodeTypeMapKey::EnclosedGenericId(key) => {
+                key.visit(self)?;
+                let identifier = self.pop_ir_identifier()?;
+                self.stack
+                    .push(StackObject::TypeDefinition(identifier.into()));
+            }
+            // The address type is already on the stack as a type definition
+            NodeTypeMapKey::EnclosedAddressMapKeyType(key)
+            | NodeTypeMapKey::AddressMapKeyType(key) => {
+                key.visit(self)?;
+            }
         };
-        let identifier = self.pop_ir_identifier()?;
-        self.stack
-            .push(StackObject::TypeDefinition(identifier.into()));
         Ok(TraversalResult::SkipChildren)
     }
     fn emit_type_map_value(
-- 
2.43.0


From 00e537a7def00d1b084825900bb859bd6705a659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 07/20] fix: report unsupported types as errors instead of
 panicking

---
 src/simplified_representation/emitter.rs | 25 +++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index f2ad0fd..2595af2 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -228,8 +228,8 @@ impl AstConverting for SrEmitter {
                 self.stack
                     .push(StackObject::TypeDefinition(identifier.into()));
             }
-            NodeTypeArgument::TemplateTypeArgument(_) => {
-                unimplemented!();
+            NodeTypeArgument::TemplateTypeArgument(name) => {
+                return Err(format!("Type variable {} is not supported here.", name));
             }
             NodeTypeArgument::AddressTypeArgument(n) => {
                 n.visit(self)?;
@@ -283,11 +283,11 @@ impl AstConverting for SrEmitter {
                 self.stack.push(StackObject::TypeDefinition(map));
             }
             NodeScillaType::FunctionType(_a, _b) => {
-                unimplemented!()
+                return Err("Function types are not supported here.".to_string());
             }
 
             NodeScillaType::PolyFunctionType(_name, _a) => {
-                unimplemented!()
+                return Err("Polymorphic types are not supported here.".to_string());
             }
             NodeScillaType::EnclosedType(a) => {
                 let _ = (*a).visit(self)?;
@@ -295,8 +295,8 @@ impl AstConverting for SrEmitter {
             NodeScillaType::ScillaAddresseType(a) => {
                 let _ = (*a).visit(self)?;
             }
-            NodeScillaType::TypeVarType(_name) => {
-                unimplemented!()
+            NodeScillaType::TypeVarType(name) => {
+                return Err(format!("Type variable {} is not supported here.", name));
             }
         };
         Ok(TraversalResult::SkipChildren)
@@ -686,7 +686,18 @@ impl AstConverting for SrEmitter {
                         self.stack
                             .push(StackObject::TypeDefinition(identifier.into()));
                     }
-                    NodeTypeMapValueArguments::MapKeyValueType(_, _) => todo!(),
+                    NodeTypeMapValueArguments::MapKeyValueType(k, v) => {
+                        k.visit(self)?;
+                        v.visit(self)?;
+                        let value = self.pop_type_definition()?;
+                        let key = self.pop_type_definition()?;
+                        let map = SrType {
+                            main_type: "Map".to_string(),
+                            sub_types: vec![key, value],
+                            address_type: None,
+                        };
+                        self.stack.push(StackObject::TypeDefinition(map));
+                    }
                 };
             }
             TreeTraversalMode::Exit => (),
-- 
2.43.0


From 7b77d9f61b85cb58bc158b1e1308adec079b050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 08/20] fix: emit exactly one identifier for Event and
 qualified type names

---
 src/simplified_representation/emitter.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 2595af2..54534a5 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -103,7 +103,11 @@ impl AstConverting for SrEmitter {
 
                     self.stack.push(StackObject::IrIdentifier(symbol));
                 }
-                NodeTypeNameIdentifier::EventType => {}
+                NodeTypeNameIdentifier::EventType => {
+                    let symbol = SrIdentifier::new(node.to_string(), SrIdentifierKind::Unknown);
+
+                    self.stack.push(StackObject::IrIdentifier(symbol));
+                }
                 NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(name) => {
                     let symbol = SrIdentifier::new(name.to_string(), SrIdentifierKind::Unknown);
 
@@ -139,7 +143,13 @@ impl AstConverting for SrEmitter {
                 self.stack.push(StackObject::IrIdentifier(symbol));
                 Ok(TraversalResult::SkipChildren)
             }
-            _ => Ok(TraversalResult::Continue),
+            NodeMetaIdentifier::MetaNameInNamespace(_, _)
+            | NodeMetaIdentifier::MetaNameInHexspace(_, _) => {
+                let symbol = SrIdentifier::new(node.to_string(), SrIdentifierKind::Unknown);
+                self.stack.push(StackObject::IrIdentifier(symbol));
+                Ok(TraversalResult::SkipChildren)
+            }
+            NodeMetaIdentifier::MetaName(_) => Ok(TraversalResult::Continue),
         }
     }
     fn emit_variable_identifier(
-- 
2.43.0


From 145a18616d1b147fb3dc2e36578d5b9cfb21a03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 09/20] fix: keep address type fields whatever kind of
 identifier names them

---
 src/simplified_representation/emitter.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 54534a5..923e76f 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -326,12 +326,11 @@ impl AstConverting for SrEmitter {
     ) -> Result<TraversalResult, String> {
         match mode {
             TreeTraversalMode::Enter => {
-                if let NodeVariableIdentifier::VariableName(n) = &node.identifier.node {
-                    node.type_name.visit(self)?;
-                    let typename = self.pop_type_definition()?;
-                    let s = StackObject::VariableDeclaration(Field::new(&n.node, typename.into()));
-                    self.stack.push(s);
-                }
+                node.type_name.visit(self)?;
+                let typename = self.pop_type_definition()?;
+                let name = node.identifier.to_string();
+                let s = StackObject::VariableDeclaration(Field::new(&name, typename.into()));
+                self.stack.push(s);
             }
             TreeTraversalMode::Exit => (),
         }
-- 
2.43.0


From bf4255849ff2d133c081585789bba18bf58a4d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 10/20] fix: keep byte offsets and character counts apart in
 the lexer

---
 src/parser/lexer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index e019b86..559f46e 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -385,8 +385,7 @@ impl<'input> Iterator for Lexer<'input> {
                         _ => {
                             let token_str: &str = &self.document[start..];
                             let mut index = 0;
-                            let token_str_chars = token_str.chars();
-                            for (i, c) in token_str_chars.enumerate() {
+                            for (i, c) in token_str.char_indices() {
                                 if !c.is_alphanumeric() && c != '_' {
                                     index = i;
                                     break;
@@ -656,7 +655,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             let end = start + mat.end();
                                             let s = &self.document[start..end];
                                             if mat.end() > 1 {
-                                                self.chars.nth(end - start - 2);
+                                                self.chars.nth(s.chars().count() - 2);
                                                 // -2, because we already consumed the first char
                                             }
 
-- 
2.43.0


From cc6cfcde409bc4fbbe2f9237065888916140836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 11/20] fix: do not split type names that merely start with
 ByStr

---
 src/parser/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 559f46e..4e85bd6 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -602,7 +602,7 @@ impl<'input> Iterator for Lexer<'input> {
                                     }
                                     _ => {
                                         // Handle other cases here
-                                        let bystr_with_size = Regex::new(r"^ByStr[0-9]+").unwrap();
+                                        let bystr_with_size = Regex::new(r"^ByStr[0-9]+$").unwrap();
 
                                         let signed_integer = Regex::new(r"^[+-]?[0-9]+").unwrap();
                                         let hex_number =
@@ -618,7 +618,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             Regex::new(r"^[A-Z][a-zA-Z0-9_]*").unwrap();
                                         let special_id = Regex::new(r"^[_][a-zA-Z0-9_]*").unwrap();
 
-                                        if let Some(mat) = bystr_with_size.find(token_str) {
+                                        if let Some(mat) = bystr_with_size.find(keyword_token) {
                                             let end = start + mat.end();
                                             let s = &self.document[start..end];
                                             if mat.end() > 1 {
@@ -627,7 +627,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             }
 
                                             (Token::ByStrWithSize(s), source_position.with_end(end))
-                                        } else if token_str.starts_with(KEYWORD_BYSTR) {
+                                        } else if keyword_token == KEYWORD_BYSTR {
                                             self.chars.nth(KEYWORD_BYSTR.len() - 2);
                                             (
                                                 Token::ByStr,
-- 
2.43.0


From 9a33689321975996324221ecb796d235c1435db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 12/20] fix: report the exact line and column of every token

---
 src/parser/lexer.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 4e85bd6..afdc63b 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -249,6 +249,17 @@ impl<'input> Iterator for Lexer<'input> {
 
     fn next(&mut self) -> Option<Self::Item> {
         while let Some((start, ch)) = self.chars.next() {
+            // Catch up with everything that was consumed since the last visit
+            for c in self.document[self.last_position..start].chars() {
+                if c == '\n' {
+                    self.character = 0;
+                    self.line += 1;
+                } else {
+                    self.character += c.len_utf8();
+                }
+            }
+            self.last_position = start;
+
             let source_position = SourcePosition {
                 position: start,
                 line: self.line,
@@ -257,8 +268,6 @@ impl<'input> Iterator for Lexer<'input> {
 
             let (token, end): (Token<&'input str>, SourcePosition) = {
                 let look_ahead = self.chars.peek().map(|(_, next_ch)| *next_ch);
-                self.character += start - self.last_position;
-                self.last_position = start;
 
                 let next_is_alpha_num_under = look_ahead
                     .map(|c| c.is_alphanumeric() || c == '_')
@@ -267,10 +276,6 @@ impl<'input> Iterator for Lexer<'input> {
 
                 // Handle more complex tokens, whitespace, and comments
                 if ch.is_whitespace() {
-                    if ch == '\n' {
-                        self.character = 0;
-                        self.line += 1;
-                    }
                     continue;
                 } else if ch == '=' && look_ahead == Some('>') {
                     self.chars.next();
-- 
2.43.0


From 8adbdbdb599e10ba2a438ee1f4efd6197ba10013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 13/20] fix: reject a comment that is never closed

---
 src/parser/lexer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index afdc63b..7984409 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -316,18 +316,23 @@ impl<'input> Iterator for Lexer<'input> {
 
                     self.chars.next(); // Consume '*'
                     let mut comment = String::new();
+                    let mut terminated = false;
 
                     while let Some((_, ch)) = self.chars.next() {
                         if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                         {
                             self.chars.next();
+                            terminated = true;
                             break;
                         } else {
                             comment.push(ch);
                         }
                     }
 
-                    continue;
+                    if terminated {
+                        continue;
+                    }
+                    (Token::Unknown, source_position.with_end(start))
                     // TODO: Hack to avoid emitting comment. However, ideally these should be part of the AST or at least the token stream
                     // let len = comment.len();
                     // let end = start + len + 2 + 1; // +2: `*)`, +1: move to char beyond last
-- 
2.43.0


From df846eb5d1e0205dd1d6d6f86e7035a0c8917130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 14/20] fix: end literals and begin import lists where they do
 in the source

---
 src/parser/parser.lalrpop | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 252dd22..bcb1089 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -167,8 +167,8 @@ pub ImportedName: WithMetaData<NodeImportedName> = {
 // @return A list of one or more imported names.
 //
 pub ImportDeclarations: WithMetaData<NodeImportDeclarations> = {
-	<prev:ImportDeclarations>
-	<start:@L> "import" <n:ImportedName> <end:@R> => 
+	<start:@L> <prev:ImportDeclarations>
+	"import" <n:ImportedName> <end:@R> => 
         WithMetaData::<NodeImportDeclarations> {
             node: {
     		let mut ret = NodeImportDeclarations {
@@ -1178,7 +1178,7 @@ pub AtomicExpression: WithMetaData<NodeAtomicExpression> = {
 // @syntax valueLiteral
 // @return A value literal as a signed or unsigned integer, a hexadecimal value, a string, or an empty map.
 pub ValueLiteral: WithMetaData<NodeValueLiteral> = {
-	<start:@L> <n: TypeNameIdentifier> <v: SignedInteger> <end:@L> => 
+	<start:@L> <n: TypeNameIdentifier> <v: SignedInteger> <end:@R> => 
     WithMetaData::<NodeValueLiteral> { 
         node: NodeValueLiteral::LiteralInt(n, v),
         start,
-- 
2.43.0


From 040a037b046a1ade95a88851c01e54e319adc11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 15/20] fix: print map and address types as valid Scilla

---
 src/type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/type.rs b/src/type.rs
index 5f430a8..2de07ad 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -52,7 +52,7 @@ impl Display for Type {
             Type::String => write!(f, "String"),
             Type::BNum => write!(f, "BNum"),
             Type::Bool => write!(f, "Bool"),
-            Type::Map(ref k, ref v) => write!(f, "(Map {}, {})", k, v),
+            Type::Map(ref k, ref v) => write!(f, "(Map {} {})", k, v),
             Type::Option(ref k) => write!(f, "(Option {})", k),
             Type::List(ref k) => write!(f, "(List {})", k),
             Type::Pair(ref k, ref v) => write!(f, "(Pair {} {})", k, v),
@@ -65,7 +65,7 @@ impl Display for Type {
                     .map(|field| format!("field {}: {}", field.name, field.r#type))
                     .collect::<Vec<String>>()
                     .join(", ");
-                write!(f, "ByStr20 with {type_name}{fields} end")
+                write!(f, "(ByStr20 with {type_name} {fields} end)")
             }
             Type::Other(ref s) => write!(f, "{}", s),
         }
-- 
2.43.0


From 8e8a909dcc4f5af1f10710790b5f6addcf73b770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 16/20] fix: do not accept names after the empty arguments of a
 builtin

---
 src/parser/parser.lalrpop | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index bcb1089..c3f8d4c 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -278,22 +278,9 @@ pub VariableIdentifier : WithMetaData<NodeVariableIdentifier> = {
 // @syntax builtinArguments
 // @return The arguments for a built-in function as either variable identifiers or an empty set of parentheses. 
 pub BuiltinArguments: WithMetaData<NodeBuiltinArguments> = {
-	<start:@L> <prev:BuiltinArguments>
-	<n:VariableIdentifier> <end:@R> => 
-    WithMetaData::<NodeBuiltinArguments> {
-        node: {
-    		let mut ret = NodeBuiltinArguments {
-    			arguments: prev.node.arguments.clone()
-    		};
-    		ret.arguments.push(n);
-    		ret
-    	},
-        start,
-        end
-    },
-	<start:@L> <n:VariableIdentifier> <end:@R> =>     WithMetaData::<NodeBuiltinArguments> {
+	<start:@L> <arguments:VariableIdentifier+> <end:@R> => WithMetaData::<NodeBuiltinArguments> {
         node: NodeBuiltinArguments {
-    		arguments: vec![n]
+    		arguments
 	    },
         start,
         end
-- 
2.43.0


From 880d435372c6cc33e0a7053151f622223f31c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:12 +0000
Subject: [PATCH 17/20] fix: do not accept a parameter list that starts with a
 comma

---
 src/parser/parser.lalrpop | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index c3f8d4c..7e17c6e 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -1529,17 +1529,17 @@ pub NextParameterPair: WithMetaData<NodeParameterPair> = {
 // @return Scilla component parameters with zero or more parameter pairs.
 pub ComponentParameters : WithMetaData<NodeComponentParameters> = {
    <start:@L> "(" 
-   <p:ParameterPair?> <next_params:NextParameterPair*>
+   <params:(<ParameterPair> <NextParameterPair*>)?>
    ")" <end:@R>
    => WithMetaData::<NodeComponentParameters> {
        node: {
            let mut parameters: Vec<WithMetaData<NodeParameterPair>> = Vec::new();
-           if let Some(pair) = p {
+           if let Some((pair, next_params)) = params {
     	        parameters.push(pair);
-           }
 
-           for p in next_params {
-               parameters.push(p);
+               for p in next_params {
+                   parameters.push(p);
+               }
            }
 
            NodeComponentParameters { parameters }
-- 
2.43.0


From 8237b14e7ec19f658599eb161109f53e86bc293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:47 +0000
Subject: [PATCH 18/20] fix: accept a match expression without clauses, as
 documented

---
 src/parser/parser.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 7e17c6e..fadc3c1 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -963,7 +963,7 @@ pub FullExpression : WithMetaData<NodeFullExpression> = {
             start,
             end
         },
-    <start:@L> "match" <match_expression:VariableIdentifier> "with" <clauses:PatternMatchExpressionClause+> "end" <end:@R> => 
+    <start:@L> "match" <match_expression:VariableIdentifier> "with" <clauses:PatternMatchExpressionClause*> "end" <end:@R> => 
         WithMetaData::<NodeFullExpression> { 
             node: NodeFullExpression::Match{
         	   match_expression,
-- 
2.43.0


From b2d448d229ed1475cd587215b664e36f97dfe42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:44 +0000
Subject: [PATCH 19/20] fix: forall extends over the whole type that follows
 it, as documented

---
 src/parser/parser.lalrpop | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index fadc3c1..cc4aacd 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -316,11 +316,6 @@ pub RemainingTypes: WithMetaData<NodeScillaType> = {
         start,
         end
     },
-    <start:@L> "forall" <template_variable: TemplateTypeId> "." <type_name: RemainingTypes> <end:@R> => WithMetaData::<NodeScillaType> { 
-        node:  NodeScillaType::PolyFunctionType(template_variable, Box::new(type_name)),
-        start,
-        end
-    },
     <start:@L> <template_variable: TemplateTypeId> <end:@R> => WithMetaData::<NodeScillaType> { 
         node:  NodeScillaType::TypeVarType(template_variable),
         start,
@@ -329,12 +324,7 @@ pub RemainingTypes: WithMetaData<NodeScillaType> = {
 }
 
 pub FunctionSignature: WithMetaData<NodeScillaType> = {
-	<start:@L> <from_type: RemainingTypes> "->" <to_type: FunctionSignature> <end:@R> => WithMetaData::<NodeScillaType> {
-        node: NodeScillaType::FunctionType(Box::new(from_type), Box::new(to_type)),
-        start,
-        end
-    },
-	<start:@L> <from_type: RemainingTypes> "->" <to_type: RemainingTypes> <end:@R> => WithMetaData::<NodeScillaType> {
+	<start:@L> <from_type: RemainingTypes> "->" <to_type: ScillaType> <end:@R> => WithMetaData::<NodeScillaType> {
         node:  NodeScillaType::FunctionType(Box::new(from_type), Box::new(to_type)),
         start,
         end
@@ -361,7 +351,12 @@ pub FunctionSignature: WithMetaData<NodeScillaType> = {
 // @return A Scilla type as a type identifier or keyword with optional type arguments, key type and value type, source type and target type, enclosed type, address type, or type variable.
 pub ScillaType: WithMetaData<NodeScillaType> = {	
 	 <f:FunctionSignature> => f,
-	 <x:RemainingTypes> => x	 
+	 <x:RemainingTypes> => x,
+    <start:@L> "forall" <template_variable: TemplateTypeId> "." <type_name: ScillaType> <end:@R> => WithMetaData::<NodeScillaType> { 
+        node:  NodeScillaType::PolyFunctionType(template_variable, Box::new(type_name)),
+        start,
+        end
+    }
 }
 
 
-- 
2.43.0


From 4b9fd687e5abfafb04f0532ea9647a7efffb2f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 20/20] fix: the kind of an address type spans its own word
 only

---
 src/parser/parser.lalrpop | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index cc4aacd..741e637 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -426,41 +426,41 @@ pub TypeArgument: WithMetaData<NodeTypeArgument> = {
 // @syntax addressType
 // @return A Scilla address type.
 pub AddressType: WithMetaData<NodeAddressType> = {
-	<start:@L> <type_name: TypeNameIdentifier> "with" "end" <end:@R> => WithMetaData::<NodeAddressType> { 
+	<start:@L> <type_name: TypeNameIdentifier> "with" <kind:@L> "end" <end:@R> => WithMetaData::<NodeAddressType> { 
         node: NodeAddressType {
             identifier: type_name,
             type_name: WithMetaData::<String> {
                 node: "".to_string(),
-                start: start.clone(),
-                end: end.clone(),
+                start: kind.clone(),
+                end: kind,
             },
             address_fields: vec![]
         },
         start,
         end
     },
-	<start:@L> <type_name: TypeNameIdentifier> "with"  "contract" <address_fields: AddressTypeFieldList?> "end" <end:@R> => 
+	<start:@L> <type_name: TypeNameIdentifier> "with" <kind_start:@L> "contract" <kind_end:@R> <address_fields: AddressTypeFieldList?> "end" <end:@R> => 
     WithMetaData::<NodeAddressType> { 
         node: NodeAddressType {
             identifier: type_name,
             type_name: WithMetaData::<String> {
                 node: "contract".to_string(),
-                start: start.clone(),
-                end: end.clone()
+                start: kind_start,
+                end: kind_end
             },
             address_fields: address_fields.unwrap_or([].to_vec())
         },
         start,
         end
     },
-	<start:@L> <type_name: TypeNameIdentifier> "with" "library" "end" <end:@R> => 
+	<start:@L> <type_name: TypeNameIdentifier> "with" <kind_start:@L> "library" <kind_end:@R> "end" <end:@R> => 
     WithMetaData::<NodeAddressType> { 
         node: NodeAddressType {
             identifier: type_name,
             type_name:  WithMetaData::<String> {
                 node: "library".to_string(),
-                start: start.clone(),
-                end: end.clone()
+                start: kind_start,
+                end: kind_end
             },
             address_fields: vec![]
         },
-- 
2.43.0

