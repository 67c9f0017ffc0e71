From f164370a422dfb2899a4f8c84657b01aff258b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:57 +0000
Subject: [PATCH 01/49] fix: namespace directives matched sibling namespaces
 sharing a textual prefix

---
 source/config.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/config.cpp b/source/config.cpp
index 4c70aa9..4c0774c 100644
--- a/source/config.cpp
+++ b/source/config.cpp
@@ -256,6 +256,13 @@ void Config::read(string const &file_name)
 }
 
 
+// check if `namespace_` is `rule` itself or is nested inside it, empty rule match everything
+static bool is_in_namespace(string const &namespace_, string const &rule)
+{
+	return rule.empty() or namespace_ == rule or begins_with(namespace_, rule + "::");
+}
+
+
 bool Config::is_namespace_binding_requested(string const &namespace_) const
 {
 	bool to_bind_flag = false, to_skip_flag = false;
@@ -263,7 +270,7 @@ bool Config::is_namespace_binding_requested(string const &namespace_) const
 
 	for( auto &n : namespaces_to_bind ) {
 		if( n.size() == 0 ) to_bind_flag = true;
-		if( begins_with(namespace_, n) ) {
+		if( is_in_namespace(namespace_, n) ) {
 			if( n.size() > to_bind.size() ) {
 				to_bind = n;
 				to_bind_flag = true;
@@ -272,7 +279,7 @@ bool Config::is_namespace_binding_requested(string const &namespace_) const
 	}
 
 	for( auto &s : namespaces_to_skip ) {
-		if( begins_with(namespace_, s) ) {
+		if( is_in_namespace(namespace_, s) ) {
 			if( s.size() > to_skip.size() ) {
 				to_skip = s;
 				to_skip_flag = true;
@@ -297,7 +304,7 @@ bool Config::is_namespace_skipping_requested(string const &namespace_) const
 	string to_bind, to_skip;
 
 	for( auto &n : namespaces_to_bind ) {
-		if( begins_with(namespace_, n) ) {
+		if( is_in_namespace(namespace_, n) ) {
 			if( n.size() > to_bind.size() ) {
 				to_bind = n;
 				to_bind_flag = true;
@@ -306,7 +313,7 @@ bool Config::is_namespace_skipping_requested(string const &namespace_) const
 	}
 
 	for( auto &s : namespaces_to_skip ) {
-		if( begins_with(namespace_, s) ) {
+		if( is_in_namespace(namespace_, s) ) {
 			if( s.size() > to_skip.size() ) {
 				to_skip = s;
 				to_skip_flag = true;
-- 
2.43.0


From 77c64ed305649dd3ae0c230958f626f8d0cc82ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:15 +0000
Subject: [PATCH 02/49] fix: -class directive was ignored for nested classes

---
 source/class.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index 2963d6d..552869b 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1220,6 +1220,9 @@ string ClassBinder::bind_nested_classes(Context &context)
 			// innerC seems to be a forward declaration
 			innerC = innerC->getDefinition();
 		}
+		Config const &config = Config::get();
+		string const name = class_qualified_name(innerC), name_without_template = standard_name(innerC->getQualifiedNameAsString());
+		if( config.is_class_skipping_requested(name) or (not config.is_class_binding_requested(name) and config.is_class_skipping_requested(name_without_template)) ) return;
 		if( is_bindable(innerC) ) {
 			// c += "\t// Binding " + C->getNameAsString() + ";\n";
 			ClassBinder b(innerC);
-- 
2.43.0


From a2c5d987f4261ec90fd88a7e4b603386704a9d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:37 +0000
Subject: [PATCH 03/49] fix: +class of a class in a skipped namespace bound the
 class without its members

---
 source/class.cpp    | 9 +++++++++
 source/class.hpp    | 3 +++
 source/enum.cpp     | 6 ++++++
 source/function.cpp | 5 +++++
 4 files changed, 23 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index 552869b..b786028 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -344,6 +344,14 @@ bool is_binding_requested(clang::CXXRecordDecl const *C, Config const &config)
 	return bind;
 }
 
+// check if user requested binding for the given class (or class that it is nested in) by name
+bool is_class_explicitly_requested(clang::CXXRecordDecl const *C, Config const &config)
+{
+	if( config.is_class_binding_requested(class_qualified_name(C)) or config.is_class_binding_requested(standard_name(C->getQualifiedNameAsString())) ) return true;
+	auto outer = dyn_cast<CXXRecordDecl>(C->getDeclContext());
+	return outer and is_class_explicitly_requested(outer, config);
+}
+
 // check if user requested skipping for the given declaration
 bool is_skipping_requested(clang::CXXRecordDecl const *C, Config const &config)
 {
@@ -357,6 +365,7 @@ bool is_skipping_requested(clang::CXXRecordDecl const *C, Config const &config)
 	if( config.is_class_binding_requested(qualified_name) ) return false;
 
 	bool skip = config.is_namespace_skipping_requested(namespace_from_named_decl(C));
+	if( is_class_explicitly_requested(C, config) ) skip = false; // nested in a class that was requested for binding by name
 
 	for( auto &t : get_type_dependencies(C) ) skip |= is_skipping_requested(t, config);
 
diff --git a/source/class.hpp b/source/class.hpp
index dfbbbb6..bd3d6bc 100644
--- a/source/class.hpp
+++ b/source/class.hpp
@@ -60,6 +60,9 @@ bool is_binding_requested(clang::CXXRecordDecl const *C, Config const &config);
 /// check if user requested skipping for the given declaration
 bool is_skipping_requested(clang::CXXRecordDecl const *C, Config const &config);
 
+// check if user requested binding for the given class (or class that it is nested in) by name
+bool is_class_explicitly_requested(clang::CXXRecordDecl const *C, Config const &config);
+
 
 // extract include needed for declaration and add it to includes
 void add_relevant_includes(clang::CXXRecordDecl const *C, IncludeSet &includes, int level);
diff --git a/source/enum.cpp b/source/enum.cpp
index b538d73..b6225ae 100644
--- a/source/enum.cpp
+++ b/source/enum.cpp
@@ -12,6 +12,7 @@
 
 
 #include <enum.hpp>
+#include <class.hpp>
 
 #include <type.hpp>
 #include <util.hpp>
@@ -76,6 +77,11 @@ bool is_skipping_requested(clang::EnumDecl const *E, Config const &config)
 
 	bool skip = config.is_namespace_skipping_requested(namespace_from_named_decl(E));
 
+	// members of a class that was explicitly requested for binding are not affected by rules for the namespace around that class
+	if( auto C = dyn_cast<CXXRecordDecl>(E->getDeclContext()) ) {
+		if( is_class_explicitly_requested(C, config) ) skip = false;
+	}
+
 	//for( auto &t : get_type_dependencies(E) ) skip |= is_skipping_requested(t, config);
 
 	return skip;
diff --git a/source/function.cpp b/source/function.cpp
index 62b46c5..57ce140 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -339,6 +339,11 @@ bool is_skipping_requested(FunctionDecl const *F, Config const &config)
 
 	bool skip = config.is_namespace_skipping_requested(namespace_from_named_decl(F));
 
+	// members of a class that was explicitly requested for binding are not affected by rules for the namespace around that class
+	if( CXXMethodDecl const *M = dyn_cast<CXXMethodDecl>(F) ) {
+		if( is_class_explicitly_requested(M->getParent(), config) ) skip = false;
+	}
+
 	// moved to config -> qualified_name.erase(std::remove(name.begin(), name.end(), ' '), name.end());
 	skip |= config.is_function_skipping_requested(qualified_name);
 
-- 
2.43.0


From 2c3625183712f18ba7efb4f8a4ddc7582ca4dd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:37 +0000
Subject: [PATCH 04/49] fix: generated files and binding functions of different
 headers could get the same name

---
 source/context.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/source/context.cpp b/source/context.cpp
index 901750a..314313b 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -330,10 +330,12 @@ void Context::generate(Config const &config)
 	vector<string> binding_function_names;
 
 	std::map<string, int> file_names;
+	std::set<string> used_file_names, used_function_names; // different prefixes could lead to the same file or function name
 	std::map<string, int> namespace_entrance;
 
 	string root_module_file_name = config.root_module + ".cpp";
 	sources.push_back(root_module_file_name);
+	used_file_names.insert(config.root_module);
 
 	string root_module_full_file_name = config.prefix + '/' + root_module_file_name;
 	std::ofstream root_module_file_handle(root_module_full_file_name);
@@ -345,19 +347,25 @@ void Context::generate(Config const &config)
 	for( uint i = 0; i < binders.size(); ++i ) {
 		if( binders[i]->code().empty() ) continue;
 
-		string np, file_name;
+		string np, file_name, function_name;
 
-		if( O_flat ) {
-			np = config.root_module + "_";
-			file_name = np + std::to_string(file_names[np]);
-		}
-		else {
-			np = file_name_prefix_for_binder(binders[i]);
-			file_name = np + (file_names[np] ? "_" + std::to_string(file_names[np]) : "");
-		}
-		++file_names[np];
+		do {
+			if( O_flat ) {
+				np = config.root_module + "_";
+				file_name = np + std::to_string(file_names[np]);
+			}
+			else {
+				np = file_name_prefix_for_binder(binders[i]);
+				file_name = np + (file_names[np] ? "_" + std::to_string(file_names[np]) : "");
+			}
+			++file_names[np];
+
+			function_name = "bind_" + replace_(file_name, "/", "_");
+		} while( used_file_names.count(file_name) or used_function_names.count(function_name) );
+
+		used_file_names.insert(file_name);
+		used_function_names.insert(function_name);
 
-		string function_name = "bind_" + replace_(file_name, "/", "_");
 		file_name += ".cpp";
 
 		sources.push_back(file_name);
-- 
2.43.0


From 22c57a0693911338de7bab4b378733fdaf59c4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:59 +0000
Subject: [PATCH 05/49] fix: pointer and reference types hidden behind a
 typedef were not followed

---
 source/type.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/type.cpp b/source/type.cpp
index ab52d34..97801f9 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -45,9 +45,9 @@ namespace binder {
 /// check if user requested binding for the given QualType
 bool is_binding_requested(clang::QualType const &qt, Config const &config)
 {
-	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) return is_binding_requested(pt->getPointeeType(), config);
+	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) return is_binding_requested(pt->getPointeeType(), config);
 
-	if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) return is_binding_requested(rt->getPointeeType(), config);
+	if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) return is_binding_requested(rt->getPointeeType(), config);
 
 	if( CXXRecordDecl *r = qt->getAsCXXRecordDecl() ) return is_binding_requested(r, config);
 
@@ -58,9 +58,9 @@ bool is_binding_requested(clang::QualType const &qt, Config const &config)
 // check if user requested skipping for the given declaration
 bool is_skipping_requested(QualType const &qt, Config const &config)
 {
-	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) return is_skipping_requested(pt->getPointeeType(), config);
+	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) return is_skipping_requested(pt->getPointeeType(), config);
 
-	if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) return is_skipping_requested(rt->getPointeeType(), config);
+	if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) return is_skipping_requested(rt->getPointeeType(), config);
 
 	if( CXXRecordDecl *r = qt->getAsCXXRecordDecl() ) return is_skipping_requested(r, config);
 
@@ -379,8 +379,8 @@ void add_relevant_includes(QualType const &qt, /*const ASTContext &context,*/ In
 {
 	// QualType qt = qt.getDesugaredType(context);
 	// outs() << "add_relevant_includes(qt): " << qt.getAsString() << "\n";
-	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) add_relevant_includes(pt->getPointeeType(), includes, level);
-	if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) add_relevant_includes(rt->getPointeeType(), includes, level);
+	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) add_relevant_includes(pt->getPointeeType(), includes, level);
+	if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) add_relevant_includes(rt->getPointeeType(), includes, level);
 	if( CXXRecordDecl *r = qt->getAsCXXRecordDecl() ) add_relevant_includes(r, includes, level);
 	if( EnumDecl *e = dyn_cast_or_null<EnumDecl>(qt->getAsTagDecl()) ) add_relevant_includes(e, includes, level);
 }
@@ -394,7 +394,7 @@ bool is_bindable(QualType const &qt)
 	r &= !qt->isFunctionPointerType() and !qt->isRValueReferenceType() and !qt->isInstantiationDependentType() and
 		 !qt->isArrayType(); // and  !qt->isConstantArrayType()  and  !qt->isIncompleteArrayType()  and  !qt->isVariableArrayType()  and  !qt->isDependentSizedArrayType()
 
-	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) {
+	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) {
 		QualType pqt = pt->getPointeeType();
 
 		if( pqt->isPointerType() ) return false; // refuse to bind 'value**...' types
@@ -410,7 +410,7 @@ bool is_bindable(QualType const &qt)
 		r &= is_bindable(pt->getPointeeType() /*.getCanonicalType()*/);
 	}
 
-	if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) {
+	if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) {
 		QualType pqt = rt->getPointeeType();
 		// outs() << "#### " << pqt.getAsString() << "\n";
 
@@ -448,9 +448,9 @@ void request_bindings(clang::QualType const &qt, Context &context)
 			if( td->isCompleteDefinition() or dyn_cast<ClassTemplateSpecializationDecl>(td) ) context.request_bindings(typename_from_type_decl(td));
 		}
 
-		if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) { request_bindings(pt->getPointeeType() /*.getCanonicalType()*/, context); }
+		if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) { request_bindings(pt->getPointeeType() /*.getCanonicalType()*/, context); }
 
-		if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) { request_bindings(rt->getPointeeType() /*.getCanonicalType()*/, context); }
+		if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) { request_bindings(rt->getPointeeType() /*.getCanonicalType()*/, context); }
 	}
 }
 
-- 
2.43.0


From 7e9f004a3a54a0d8ac7e85be0cb4626b93436485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:59 +0000
Subject: [PATCH 06/49] fix: failed or truncated writes of generated files were
 reported as success

---
 source/context.cpp | 7 +++++++
 source/util.cpp    | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/source/context.cpp b/source/context.cpp
index 314313b..a9d2825 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -494,10 +494,17 @@ void Context::generate(Config const &config)
 	else {
 		std::ofstream f(root_module_prefix + ".sources");
 		for( auto &s : sources ) f << s << "\n";
+		f.close();
+		if( f.fail() ) throw std::runtime_error("ERROR: Can not write file " + root_module_prefix + ".sources...");
 
 		std::ofstream namespaces_file_handle(root_module_prefix + ".modules");
 		namespaces_file_handle << modules;
+		namespaces_file_handle.close();
+		if( namespaces_file_handle.fail() ) throw std::runtime_error("ERROR: Can not write file " + root_module_prefix + ".modules...");
 	}
+
+	root_module_file_handle.close();
+	if( root_module_file_handle.fail() ) throw std::runtime_error("ERROR: Can not write file " + root_module_full_file_name + "...");
 }
 
 /// generate unique trace line containing `info` to insert into the code
diff --git a/source/util.cpp b/source/util.cpp
index 2b425a5..0f9c3e5 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -146,6 +146,8 @@ void update_source_file(std::string const &prefix, std::string const &file_name,
 		std::ofstream f(full_file_name);
 		if( f.fail() ) throw std::runtime_error("ERROR: Can not open file " + full_file_name + " for writing...");
 		f << code;
+		f.close();
+		if( f.fail() ) throw std::runtime_error("ERROR: Can not write file " + full_file_name + "...");
 	}
 	else {
 		if( O_verbose ) outs() << "File " << full_file_name << " is up-to-date, skipping...\n";
-- 
2.43.0


From 8002bc8b9136d9408240aae55aa7a6db76b489bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:59 +0000
Subject: [PATCH 07/49] fix: --max-file-size 0 made generation loop forever

---
 source/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/main.cpp b/source/main.cpp
index 5db6d64..bf4a582 100644
--- a/source/main.cpp
+++ b/source/main.cpp
@@ -87,7 +87,7 @@ public:
 
 		config.root_module = O_root_module;
 		config.prefix = O_prefix;
-		config.maximum_file_length = O_max_file_size;
+		config.maximum_file_length = O_max_file_size ? O_max_file_size : 1; // every file must take at least one binder, otherwise generation will never end
 		config.skip_line_number = O_skip_line_number;
 
 		config.namespaces_to_bind = O_bind;
-- 
2.43.0


From 8b6f349364420a105f4c722fbdc4a63ab2cad4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:59 +0000
Subject: [PATCH 08/49] fix: enums of anonymous namespaces were bound by a name
 that can not be spelled

---
 source/enum.cpp | 1 +
 source/type.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/enum.cpp b/source/enum.cpp
index b6225ae..a1ca0b9 100644
--- a/source/enum.cpp
+++ b/source/enum.cpp
@@ -49,6 +49,7 @@ bool is_bindable(EnumDecl const *E)
 	// else return true;
 
 	if( E->isCXXInstanceMember() ) return false;
+	if( E->isInAnonymousNamespace() ) return false;
 
 	string name = E->getNameAsString(); // getQualifiedNameAsString(); //
 	// if( name.rfind(')') != string::npos ) return false; // checking that this is not an "(anonymous)" enum
diff --git a/source/type.cpp b/source/type.cpp
index 97801f9..bff51b6 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -432,6 +432,7 @@ bool is_bindable(QualType const &qt)
 		}
 		if( TagDecl *td = tp->getAsTagDecl() ) {
 			if( td->getAccess() == AS_protected or td->getAccess() == AS_private ) return false;
+			if( td->isInAnonymousNamespace() ) return false;
 		}
 	}
 
-- 
2.43.0


From 5e45bf5d8c305c4b56ed8252587f0e2cc13a8493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:59 +0000
Subject: [PATCH 09/49] fix: inherited constructors were bound regardless of
 their access and skip directives

---
 source/class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index b786028..dbc52d2 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1359,7 +1359,7 @@ void ClassBinder::bind(Context &context)
 					for( auto s = u->shadow_begin(); s != u->shadow_end(); ++s ) {
 						if( UsingShadowDecl *us = dyn_cast<UsingShadowDecl>(*s) ) {
 							if( CXXConstructorDecl *t = dyn_cast<CXXConstructorDecl>(us->getTargetDecl()) ) {
-								if( is_bindable(t) ) {
+								if( t->getAccess() == AS_public and is_bindable(t) and !is_skipping_requested(t, Config::get()) ) {
 									ConstructorBindingInfo CBI = {C, t, trampoline, qualified_name, trampoline_name, context};
 
 									if( t->isCopyConstructor() /*and  not copy_constructor_processed*/ ) {
-- 
2.43.0


From e517bdd1144bdd59c10813a9342c03cf155fc466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:59 +0000
Subject: [PATCH 10/49] fix: bit-field data members were bound through an
 ill-formed pointer to member

---
 source/class.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index dbc52d2..20d5b03 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -145,6 +145,8 @@ bool is_bindable(FieldDecl *f)
 
 	if( f->isAnonymousStructOrUnion() ) return false;
 
+	if( f->isBitField() ) return false; // it is not possible to create pointer to bit-field member
+
 	if( !is_bindable(f->getType()) ) return false;
 
 	return true;
-- 
2.43.0


From 0b2778ff40e05be188f1c4971839fbca769787bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:05 +0000
Subject: [PATCH 11/49] fix: default constructor was bound for classes whose
 members make it deleted

---
 source/class.cpp | 50 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 20d5b03..f8eeb43 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -19,6 +19,7 @@
 
 #include <fmt/format.h>
 
+#include <clang/AST/ASTContext.h>
 #include <clang/AST/DeclTemplate.h>
 //#include <clang/AST/TemplateBase.h>
 
@@ -494,6 +495,8 @@ void add_relevant_includes_cached(clang::CXXRecordDecl const *C, IncludeSet &inc
 // 	return true;
 // }
 
+bool members_default_constructible(CXXRecordDecl const *C);
+
 // Check if all bases have public default constructors
 bool base_default_default_constructor_available(CXXRecordDecl const *C)
 {
@@ -510,8 +513,53 @@ bool base_default_default_constructor_available(CXXRecordDecl const *C)
 				}
 
 				if( !base_default_default_constructor_available(R) ) return false;
+
+				if( R->needsImplicitDefaultConstructor() and !members_default_constructible(R) ) return false;
+			}
+		}
+	}
+
+	return true;
+}
+
+// Check if data members of class C does not make its implicit default constructor deleted
+bool members_default_constructible(CXXRecordDecl const *C)
+{
+	if( C->isUnion() ) return true;
+
+	for( auto f : C->fields() ) {
+		if( f->hasInClassInitializer() ) continue;
+
+		QualType const qt = C->getASTContext().getBaseElementType(f->getType());
+
+		if( qt->isReferenceType() ) return false;
+
+		if( CXXRecordDecl const *R = qt->getAsCXXRecordDecl() ) {
+			if( !R->hasDefinition() or f->isAnonymousStructOrUnion() ) continue;
+
+			if( qt.isConstQualified() and !R->allowConstDefaultInit() ) return false;
+
+			bool declared = false;
+			for( auto t = R->ctor_begin(); t != R->ctor_end(); ++t ) {
+				if( t->isDefaultConstructor() ) {
+					if( t->getAccess() != AS_public or t->isDeleted() ) return false;
+					declared = true;
+				}
+			}
+			if( declared ) continue;
+
+			if( R->needsImplicitDefaultConstructor() ) {
+				if( !base_default_default_constructor_available(R) or !members_default_constructible(R) ) return false;
+			}
+			else {
+				bool constructor_template = false; // default constructor could be a template
+				for( auto d = R->decls_begin(); d != R->decls_end(); ++d ) {
+					if( FunctionTemplateDecl *ft = dyn_cast<FunctionTemplateDecl>(*d) ) constructor_template |= isa<CXXConstructorDecl>(ft->getTemplatedDecl());
+				}
+				if( !constructor_template ) return false;
 			}
 		}
+		else if( qt.isConstQualified() and !(f->isBitField() and !f->getDeclName()) ) return false;
 	}
 
 	return true;
@@ -1383,7 +1431,7 @@ void ClassBinder::bind(Context &context)
 		// c += "\t// hasDefaultConstructor={} needsImplicitDefaultConstructor={} base_default_default_constructor_available={}\n"_format(C->hasDefaultConstructor(),
 		// C->needsImplicitDefaultConstructor(), base_default_default_constructor_available(C));
 
-		if( !default_constructor_processed and C->needsImplicitDefaultConstructor() and base_default_default_constructor_available(C)
+		if( !default_constructor_processed and C->needsImplicitDefaultConstructor() and base_default_default_constructor_available(C) and members_default_constructible(C)
 			// ( C->ctor_begin() == C->ctor_end() and  is_default_default_constructor_available(C)  and  !default_constructor_processed)
 			// or (C->hasDefaultConstructor()  and  !default_constructor_processed )
 
-- 
2.43.0


From b4dc0424e052b4af5d65f05a0802f98190be901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:21 +0000
Subject: [PATCH 12/49] fix: data members of not assignable type were bound as
 writable when the type was spelled with a typedef, qualifier or template

---
 source/class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index f8eeb43..50480f7 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -125,7 +125,7 @@ bool is_inherited_from_enable_shared_from_this(CXXRecordDecl const *C)
 
 bool is_field_assignable(FieldDecl const *f)
 {
-	if( RecordType const *r = dyn_cast<RecordType>(f->getType()) ) {
+	if( RecordType const *r = f->getType()->getAs<RecordType>() ) {
 		if( CXXRecordDecl *C = cast<CXXRecordDecl>(r->getDecl()) ) { // checking if this type has deleted operator=
 			for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
 				// if( m->getAccess() == AS_public  and  m->isCopyAssignmentOperator()  /*and  !m->doesThisDeclarationHaveABody()*/ and  m->isDeleted() ) return false;
-- 
2.43.0


From 7604306c3a98c7c1e09f3771c8bd8b2a63630a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:41 +0000
Subject: [PATCH 13/49] fix: name of template specialization with empty
 parameter pack lost its opening bracket

---
 source/class.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 50480f7..940053a 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -60,7 +60,8 @@ string template_specialization(clang::CXXRecordDecl const *C)
 			// if( t->getTemplateArgs()[i].ArgKind() == TemplateArgument::ArgKind::Integral ) outs() << " template arg:" << t->getTemplateArgs()[i].<< "\n";
 			// outs() << expresion_to_string( t->getTemplateArgs()[i].getAsExpr() ) << "\n";
 		}
-		templ.back() = '>';
+		if( templ.size() > 1 ) templ.back() = '>';
+		else templ += '>'; // empty parameter pack
 	}
 
 	fix_boolean_types(templ);
-- 
2.43.0


From 53b79da56e0dbc91e19e251bbf4859013b689e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:26 +0000
Subject: [PATCH 14/49] fix: data members lifted from an inaccessible base by
 using-declaration were bound through a pointer to member that can not be
 applied

---
 source/class.cpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 940053a..67196b7 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -155,6 +155,29 @@ bool is_bindable(FieldDecl *f)
 }
 
 
+// Check if there is a way from class to (direct or indirect) base through public inheritance only
+bool is_publicly_derived_from(CXXRecordDecl const *C, CXXRecordDecl const *base)
+{
+	for( auto b = C->bases_begin(); b != C->bases_end(); ++b ) {
+		if( b->getAccessSpecifier() == AS_public ) {
+			CXXRecordDecl const *R = b->getType()->getAsCXXRecordDecl();
+			if( R and (R->getCanonicalDecl() == base->getCanonicalDecl() or is_publicly_derived_from(R, base)) ) return true;
+		}
+	}
+	return false;
+}
+
+
+// Generate bindings for data member of inaccessible base class that was made public by 'using' declaration: pointer to such member could not be applied outside of the class
+string bind_lifted_data_member(FieldDecl const *d, string const &class_qualified_name)
+{
+	string const getter = "[]({0} const &o) -> decltype((o.{1})) {{ return o.{1}; }}"_format(class_qualified_name, d->getNameAsString());
+
+	if( d->getType().isConstQualified() or !is_field_assignable(d) ) return ".def_property_readonly(\"{}\", {})"_format(d->getNameAsString(), getter);
+	else return ".def_property(\"{0}\", {1}, []({2} &o, decltype({2}::{0}) const &v) {{ o.{0} = v; }})"_format(d->getNameAsString(), getter, class_qualified_name);
+}
+
+
 // Generate bindings for class data member
 string bind_data_member(FieldDecl const *d, string const &class_qualified_name_)
 {
@@ -639,7 +662,10 @@ string binding_public_data_members(CXXRecordDecl const *C)
 							if ( config.is_field_skipping_requested(f->getQualifiedNameAsString())) {
 								continue;
 							}
-							if( is_bindable(f) ) c += "\tcl" + bind_data_member(f, class_qualified_name(C)) + ";\n";
+							if( is_bindable(f) ) {
+								bool accessible = is_publicly_derived_from(C, cast<CXXRecordDecl>(f->getParent()));
+								c += "\tcl" + (accessible ? bind_data_member(f, class_qualified_name(C)) : bind_lifted_data_member(f, class_qualified_name(C))) + ";\n";
+							}
 						}
 					}
 				}
-- 
2.43.0


From 12d6f169e5bd051563653d60e12b979a577f399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:38 +0000
Subject: [PATCH 15/49] fix: types nested in a not public class were considered
 bindable

---
 source/class.cpp |  2 +-
 source/type.cpp  | 12 +++++++++++-
 source/type.hpp  |  4 ++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 67196b7..dbb7962 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -309,7 +309,7 @@ bool is_bindable_raw(clang::CXXRecordDecl const *C)
 	// outs() << qualified_name << ": anonymous_name:" << anonymous_name << " isAnonymousStructOrUnion: " << C->isAnonymousStructOrUnion() << " hasNameForLinkage:" << C->hasNameForLinkage() << "\n";
 
 	if( C->isDependentType() ) return false;
-	if( C->getAccess() == AS_protected or C->getAccess() == AS_private ) return false;
+	if( !is_accessible(C) ) return false;
 
 	if( !C->isCompleteDefinition() ) {
 		if( auto ts = dyn_cast<ClassTemplateSpecializationDecl>(C) ) {
diff --git a/source/type.cpp b/source/type.cpp
index bff51b6..4a9cc70 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -374,6 +374,16 @@ void add_relevant_include_for_decl(NamedDecl const *decl, IncludeSet &includes /
 }
 
 
+/// check if given class/enum and all classes it is nested into are public and so could be named from outside
+bool is_accessible(TagDecl const *D)
+{
+	for( TagDecl const *d = D; d; d = dyn_cast<TagDecl>(d->getDeclContext()) ) {
+		if( d->getAccess() == AS_protected or d->getAccess() == AS_private ) return false;
+	}
+	return true;
+}
+
+
 /// extract include needed for this generator and add it to includes vector
 void add_relevant_includes(QualType const &qt, /*const ASTContext &context,*/ IncludeSet &includes, int level)
 {
@@ -431,7 +441,7 @@ bool is_bindable(QualType const &qt)
 			r &= is_bindable(rd);
 		}
 		if( TagDecl *td = tp->getAsTagDecl() ) {
-			if( td->getAccess() == AS_protected or td->getAccess() == AS_private ) return false;
+			if( !is_accessible(td) ) return false;
 			if( td->isInAnonymousNamespace() ) return false;
 		}
 	}
diff --git a/source/type.hpp b/source/type.hpp
index 78f298e..41c0b9c 100644
--- a/source/type.hpp
+++ b/source/type.hpp
@@ -46,6 +46,10 @@ void add_relevant_include_for_decl(clang::NamedDecl const *decl, IncludeSet &inc
 void add_relevant_includes(clang::QualType const &qt, /*clang::ASTContext const &context,*/ IncludeSet &includes, int level);
 
 
+/// check if given class/enum and all classes it is nested into are public and so could be named from outside
+bool is_accessible(clang::TagDecl const *D);
+
+
 /// check if given QualType is bindable
 bool is_bindable(clang::QualType const &qt);
 
-- 
2.43.0


From 23fd2656f05d9de5dc1a5da230e0f7d3abcbcb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:36 +0000
Subject: [PATCH 16/49] fix: name of template specialization with negative
 argument was not an identifier

---
 source/util.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/util.cpp b/source/util.cpp
index 0f9c3e5..1244b5f 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -284,6 +284,7 @@ string mangle_type_name(string const &name, bool mark_template)
 	if( template_ and mark_template ) {
 		replace(r, "*", "_star_");
 		replace(r, "&", "_ref_");
+		replace(r, "-", "minus_");
 		r.push_back('t');
 	}
 
-- 
2.43.0


From e31ad08c8a212296c5cab9fd4796e0ff3caa1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:36 +0000
Subject: [PATCH 17/49] fix: call-back structure was generated for classes with
 private destructor

---
 source/class.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index dbb7962..79f7500 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -712,6 +712,11 @@ bool is_callback_structure_needed(CXXRecordDecl const *C)
 
 	if( C->hasAttr<FinalAttr>() ) return false;
 
+	// classes with private destructor could not be used as a base
+	if( CXXDestructorDecl const *d = C->getDestructor() ) {
+		if( d->getAccess() == AS_private ) return false;
+	}
+
 	for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
 		if( m->getAccess() != AS_private and is_bindable(*m) and m->isVirtual() and !isa<CXXDestructorDecl>(*m) ) return true;
 	}
-- 
2.43.0


From 7dcd01552265e470947fc2eb389daebc03830e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:36 +0000
Subject: [PATCH 18/49] fix: call-back structures replaced private overrides
 with the base class version of the function

---
 source/class.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index 79f7500..f98c807 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -898,6 +898,14 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 				prefix_includes_.push_back(*m);
 			}
 		}
+#if( LLVM_VERSION_MAJOR >= 18 )
+		else if( m->isVirtual() and !m->isPureVirtual() and !isa<CXXDestructorDecl>(*m) ) {
+#else
+		else if( m->isVirtual() and !m->isPure() and !isa<CXXDestructorDecl>(*m) ) {
+#endif
+			// function that we can not call from call-back structure, - make sure that it will not be replaced by the function of a base class that it overrides
+			binded.insert( m->getNameAsString() + '(' + std::get<0>(function_arguments_for_py_overload(*m)) + (m->isConst() ? ") const" : ")") );
+		}
 	}
 
 	for( auto b = C->bases_begin(); b != C->bases_end(); ++b ) {
-- 
2.43.0


From ecee6102abcfd9cf30d103ef72701a778a174057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:32 +0000
Subject: [PATCH 19/49] fix: call-back structures with unimplemented const
 overloads were considered constructible

---
 source/class.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index f98c807..d50500d 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -20,6 +20,7 @@
 #include <fmt/format.h>
 
 #include <clang/AST/ASTContext.h>
+#include <clang/AST/CXXInheritance.h>
 #include <clang/AST/DeclTemplate.h>
 //#include <clang/AST/TemplateBase.h>
 
@@ -738,6 +739,21 @@ bool is_callback_structure_needed(CXXRecordDecl const *C)
 bool is_callback_structure_constructible(CXXRecordDecl const *C)
 {
 	if( C->isAbstract() ) {
+		// const overloads are not overridden in call-back structure so if one of them is left pure then call-back structure will be abstract
+		CXXFinalOverriderMap overriders;
+		C->getFinalOverriders(overriders);
+		for( auto const &o : overriders ) {
+			for( auto const &s : o.second ) {
+				for( auto const &u : s.second ) {
+#if( LLVM_VERSION_MAJOR >= 18 )
+					if( u.Method->isPureVirtual() and is_const_overload(u.Method) ) return false;
+#else
+					if( u.Method->isPure() and is_const_overload(u.Method) ) return false;
+#endif
+				}
+			}
+		}
+
 		for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
 #if( LLVM_VERSION_MAJOR >= 18 )
 			if( m->isPureVirtual() and !isa<CXXConstructorDecl>(*m) and (m->getAccess() == AS_private or !is_bindable(*m) or is_skipping_requested(*m, Config::get())) ) return false;
-- 
2.43.0


From d72ab52d00defced86a37483ec86c672354708d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:37 +0000
Subject: [PATCH 20/49] fix: bind the implicit default constructor when an
 inherited default constructor could not be bound

A using-declaration that names base constructors marked the default constructor as processed even if the inherited one was
skipped or not bindable, so default-constructible classes could end up without a default constructor.
---
 source/class.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index d50500d..9d7de06 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1475,8 +1475,9 @@ void ClassBinder::bind(Context &context)
 									}
 									else if( t->isDefaultConstructor() and t->getNumParams() == 0 ) constructors += bind_default_constructor(CBI); // workaround for Pybind11-2.2 issues
 									else constructors += bind_constructor(CBI);
+
+									if( t->isDefaultConstructor() ) default_constructor_processed = true;
 								}
-								if( t->isDefaultConstructor() ) default_constructor_processed = true;
 							}
 						}
 					}
-- 
2.43.0


From 25b39dae7510f04db4b378bf3291c06febbf61fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:19 +0000
Subject: [PATCH 21/49] fix: find operator<< for template instances with class
 arguments

The operator was looked up by the text of its type only, in which the arguments of a template instance are spelled
differently, so such classes never got __str__.
---
 source/context.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/context.cpp b/source/context.cpp
index a9d2825..78cafe0 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -170,6 +170,14 @@ clang::FunctionDecl const *Context::global_insertion_operator(clang::CXXRecordDe
 	auto it = insertion_operators.find(op_pointer);
 	if( it != insertion_operators.end() ) return it->second;
 
+	for( auto &f : insertion_operators ) { // names of template arguments could be spelled differently, so compare types
+		if( begins_with(f.first, "std::ostream & (*)(std::ostream &, const ") and f.second->getNumParams() == 2 ) {
+			ReferenceType const *rt = f.second->getParamDecl(1)->getType()->getAs<ReferenceType>();
+			CXXRecordDecl const *r = rt ? rt->getPointeeType()->getAsCXXRecordDecl() : nullptr;
+			if( r and r->getCanonicalDecl() == C->getCanonicalDecl() ) return f.second;
+		}
+	}
+
 	if( auto t = dyn_cast<ClassTemplateSpecializationDecl>(C) ) { // if operator<< is template it will have different form: std::ostream & (*)(std::ostream &, const A<type-parameter-0-0> &)
 		op_pointer = "std::ostream & (*)(std::ostream &, const " + standard_name(C->getNameAsString()) +
 					 "<"; // Note: we do not use `getQualifiedNameAsString` because if argument is templated it string representation will not have namespaces
-- 
2.43.0


From 30f4da0dd4639dfc2ff4971840513ab77379415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:22 +0000
Subject: [PATCH 22/49] fix: data members whose type has an implicitly deleted
 assignment operator were bound as writable

---
 source/class.cpp | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 9d7de06..f7cb8fb 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -125,20 +125,49 @@ bool is_inherited_from_enable_shared_from_this(CXXRecordDecl const *C)
 }
 
 
-bool is_field_assignable(FieldDecl const *f)
+// Check if objects of given class could be assigned by code outside of the class (or, when 'as_base' is true, by implicit assignment operator of derived class)
+// note: implicit assignment operators are declared lazily so absence of declaration does not mean that operator is not deleted
+bool is_assignable(CXXRecordDecl const *C, bool as_base = false)
 {
-	if( RecordType const *r = f->getType()->getAs<RecordType>() ) {
-		if( CXXRecordDecl *C = cast<CXXRecordDecl>(r->getDecl()) ) { // checking if this type has deleted operator=
-			for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
-				// if( m->getAccess() == AS_public  and  m->isCopyAssignmentOperator()  /*and  !m->doesThisDeclarationHaveABody()*/ and  m->isDeleted() ) return false;
-				if( m->isCopyAssignmentOperator() and (m->getAccess() != AS_public or m->isDeleted()) ) return false;
-			}
+	C = C->getDefinition();
+	if( !C ) return true;
+
+	bool declared = false;
+	for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
+		if( m->isCopyAssignmentOperator() ) {
+			declared = true;
+			if( m->isDeleted() or !(m->getAccess() == AS_public or (as_base and m->getAccess() == AS_protected)) ) return false;
+		}
+	}
+	if( declared ) return true;
+
+	if( C->hasUserDeclaredMoveConstructor() or C->hasUserDeclaredMoveAssignment() ) return false;
+
+	for( auto const &b : C->bases() ) {
+		if( CXXRecordDecl const *B = b.getType()->getAsCXXRecordDecl() ) {
+			if( !is_assignable(B, true) ) return false;
+		}
+	}
+
+	for( auto f : C->fields() ) {
+		QualType T = C->getASTContext().getBaseElementType(f->getType());
+		if( T->isReferenceType() or (T.isConstQualified() and !f->isUnnamedBitfield()) ) return false;
+		if( CXXRecordDecl const *F = T->getAsCXXRecordDecl() ) {
+			if( !is_assignable(F) ) return false;
 		}
 	}
 
 	return true;
 }
 
+
+bool is_field_assignable(FieldDecl const *f)
+{
+	if( CXXRecordDecl const *C = f->getType()->getAsCXXRecordDecl() ) return is_assignable(C);
+
+	return true;
+}
+
 /// check if generator can create binding
 bool is_bindable(FieldDecl *f)
 {
-- 
2.43.0


From 5334273136a6831f829a6bcde2d5e66a39f29721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:05 +0000
Subject: [PATCH 23/49] fix: headers of types mentioned by member functions
 bound from base classes were not included

---
 source/class.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index f7cb8fb..ec91375 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -503,6 +503,28 @@ void add_relevant_includes(clang::CXXRecordDecl const *C, IncludeSet &includes,
 			if( m->getAccess() == AS_public and is_bindable(*m) /*and  !isa<CXXConstructorDecl>(*m)*/ and !isa<CXXDestructorDecl>(*m) ) { add_relevant_includes(*m, includes, level + 1); }
 		}
 	}
+
+	// functions of base classes that are bound as functions of this class: introduced by 'using' declaration or, for template specializations, inherited from public base
+	if( level < 1 and C->hasDefinition() ) {
+		for( auto d = C->decls_begin(); d != C->decls_end(); ++d ) {
+			if( UsingDecl *u = dyn_cast<UsingDecl>(*d) ) {
+				if( u->getAccess() != AS_public ) continue;
+				for( auto s = u->shadow_begin(); s != u->shadow_end(); ++s ) {
+					if( CXXMethodDecl *m = dyn_cast<CXXMethodDecl>(s->getTargetDecl()) ) {
+						if( is_bindable(m) and !isa<CXXDestructorDecl>(m) ) add_relevant_includes(m, includes, level + 1);
+					}
+				}
+			}
+		}
+
+		if( isa<ClassTemplateSpecializationDecl>(C) ) {
+			for( auto const &b : C->bases() ) {
+				if( b.getAccessSpecifier() == AS_public and !b.isVirtual() ) {
+					if( CXXRecordDecl const *R = b.getType()->getAsCXXRecordDecl() ) add_relevant_includes(R, includes, level);
+				}
+			}
+		}
+	}
 }
 
 inline void add_includes_to_set(std::vector<std::string> const &from, IncludeSet &to)
-- 
2.43.0


From 23ea52e63de9f5895bd2ca3a5feb30ae74570408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:07 +0000
Subject: [PATCH 24/49] fix: arguments of template parameter packs were ignored
 by skip directives and includes

---
 source/class.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index ec91375..2b3dd27 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -94,14 +94,25 @@ string class_qualified_name(CXXRecordDecl const *C)
 	return standard_name(C->getQualifiedNameAsString() + template_specialization(C));
 }
 
+// generate vector with all template arguments of class specialization, elements of parameter packs included
+vector<TemplateArgument> get_template_arguments(ClassTemplateSpecializationDecl const *t)
+{
+	vector<TemplateArgument> r;
+	for( auto const &a : t->getTemplateArgs().asArray() ) {
+		if( a.getKind() == TemplateArgument::Pack ) r.insert(r.end(), a.pack_begin(), a.pack_end());
+		else r.push_back(a);
+	}
+	return r;
+}
+
 // generate vector<QualType> with all types that class uses if it tempalated
 vector<QualType> get_type_dependencies(CXXRecordDecl const *C /*, bool include_members*/)
 {
 	vector<QualType> r;
 
 	if( auto t = dyn_cast<ClassTemplateSpecializationDecl>(C) ) {
-		for( uint i = 0; i < t->getTemplateArgs().size(); ++i ) {
-			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Type ) { r.push_back(t->getTemplateArgs()[i].getAsType() /*.getDesugaredType(C->getASTContext())*/); }
+		for( auto const &a : get_template_arguments(t) ) {
+			if( a.getKind() == TemplateArgument::Type ) { r.push_back(a.getAsType() /*.getDesugaredType(C->getASTContext())*/); }
 		}
 	}
 
@@ -439,17 +450,17 @@ void add_relevant_includes(clang::CXXRecordDecl const *C, IncludeSet &includes,
 
 	if( auto t = dyn_cast<ClassTemplateSpecializationDecl>(C) ) {
 
-		for( uint i = 0; i < t->getTemplateArgs().size(); ++i ) {
-			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Type ) { add_relevant_includes(t->getTemplateArgs()[i].getAsType().getDesugaredType(C->getASTContext()), includes, level + 1); }
-			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Template ) {
-				add_relevant_include_for_decl(t->getTemplateArgs()[i].getAsTemplate().getAsTemplateDecl()->getTemplatedDecl(), includes);
+		for( auto const &a : get_template_arguments(t) ) {
+			if( a.getKind() == TemplateArgument::Type ) { add_relevant_includes(a.getAsType().getDesugaredType(C->getASTContext()), includes, level + 1); }
+			if( a.getKind() == TemplateArgument::Template ) {
+				add_relevant_include_for_decl(a.getAsTemplate().getAsTemplateDecl()->getTemplatedDecl(), includes);
 			}
 
-			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Declaration ) {
-				ValueDecl *v = t->getTemplateArgs()[i].getAsDecl();
+			if( a.getKind() == TemplateArgument::Declaration ) {
+				ValueDecl *v = a.getAsDecl();
 				add_relevant_include_for_decl(v, includes);
 			}
-			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Integral ) { add_relevant_includes(t->getTemplateArgs()[i].getIntegralType(), includes, level + 1); }
+			if( a.getKind() == TemplateArgument::Integral ) { add_relevant_includes(a.getIntegralType(), includes, level + 1); }
 		}
 	}
 
-- 
2.43.0


From 535ecf789598412f36e154d62a67e37258af2a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:51 +0000
Subject: [PATCH 25/49] fix: types of constructor arguments were not requested
 for variadic constructors

---
 source/class.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 2b3dd27..f5492ab 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1216,13 +1216,15 @@ string bind_constructor(ConstructorBindingInfo const &CBI, uint args_to_bind, bo
 		c += "\t// function-signature: " + function_qualified_name(F, true) + "(" + function_arguments(F) + ") file:" + (include.size() ? include.substr(1, include.size() - 2) : "") + " line:" + line_number(F) + "\n";
 	}
 
+	if( request_bindings_f ) {
+		for( uint i = 0; i < CBI.T->getNumParams() and i < args_to_bind; ++i ) request_bindings(CBI.T->getParamDecl(i)->getOriginalType(), CBI.context);
+	}
+
 	if( args_to_bind == CBI.T->getNumParams() and not CBI.T->isVariadic() ) {
 		c += "\tcl.def( pybind11::init<{}>()"_format(function_arguments(CBI.T));
 
 		for( uint i = 0; i < CBI.T->getNumParams() and i < args_to_bind; ++i ) {
 			c += ", pybind11::arg(\"{}\")"_format(string(CBI.T->getParamDecl(i)->getName()));
-
-			if( request_bindings_f ) request_bindings(CBI.T->getParamDecl(i)->getOriginalType(), CBI.context);
 		}
 		c += " );\n";
 	}
-- 
2.43.0


From 66b6b226a0f1f0d18bd07cf7b0fd7f1eca4d0dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:04 +0000
Subject: [PATCH 26/49] fix: call of a global function with default arguments
 could be ambiguous with functions of other namespaces

---
 source/function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/function.cpp b/source/function.cpp
index 57ce140..6202b46 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -416,7 +416,8 @@ string bind_function(FunctionDecl const *F, uint args_to_bind, bool request_bind
 			function = "[]({}{}) -> {} {{ return o.{}({}); }}"_format(object, args.first, return_type, F->getNameAsString(), args.second);
 		}
 		else {
-			function = "[]({}) -> {} {{ return {}({}); }}"_format(args.first, return_type, function_qualified_name, args.second);
+			string const maybe_global = function_qualified_name.find("::") == string::npos ? "::" : ""; // unqualified name could be found by argument dependent lookup in other namespaces too
+			function = "[]({}) -> {} {{ return {}{}({}); }}"_format(args.first, return_type, maybe_global, function_qualified_name, args.second);
 		}
 	}
 
-- 
2.43.0


From 0f0eb6ec0f9d7b88b9806e6df2eb3a0141b786f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:38 +0000
Subject: [PATCH 27/49] fix: output directories with spaces or shell characters
 in their names could not be created

---
 source/util.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/util.cpp b/source/util.cpp
index 1244b5f..29b40db 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -22,6 +22,8 @@
 #include <clang/AST/ExprCXX.h>
 #include <clang/Basic/SourceManager.h>
 
+#include <llvm/Support/FileSystem.h>
+
 //#include <experimental/filesystem>
 #include <cctype>
 #include <cstdlib>
@@ -133,9 +135,7 @@ void update_source_file(std::string const &prefix, std::string const &file_name,
 	dirs.pop_back();
 	for( auto &d : dirs ) path += "/" + d;
 
-	// std::experimental::filesystem::create_directories(path);
-	string command_line = "mkdir -p " + path;
-	if (system(command_line.c_str()) != 0) throw std::runtime_error("ERROR: Command \"" + command_line + "\" failed");
+	if( std::error_code const e = llvm::sys::fs::create_directories(path, true, llvm::sys::fs::all_all) ) throw std::runtime_error("ERROR: Can not create directory " + path + ": " + e.message());
 
 	string full_file_name = prefix + '/' + file_name;
 	std::ifstream f(full_file_name);
-- 
2.43.0


From 6b7222e736edfcfb62227b0ab61a10ded5a94259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:47 +0000
Subject: [PATCH 28/49] fix: errors while reading config file were ignored

---
 source/config.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/config.cpp b/source/config.cpp
index 4c0774c..154cd6d 100644
--- a/source/config.cpp
+++ b/source/config.cpp
@@ -253,6 +253,8 @@ void Config::read(string const &file_name)
 									 "' Line: '" + line + '\'');
 		}
 	}
+
+	if( f.bad() ) throw std::runtime_error("error while reading file " + file_name + "...");
 }
 
 
-- 
2.43.0


From 1fdc4fd69dfcf6283e98a98e365bb9ad2d80958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:51 +0000
Subject: [PATCH 29/49] fix: call-back structures called functions of a base
 class by a name that could denote another class

---
 source/class.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index f5492ab..08900b8 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -949,7 +949,10 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 #else
 					if( m->isPure() ) c += "\t\tpybind11::pybind11_fail(\"Tried to call pure virtual function \\\"{}::{}\\\"\");\n"_format(C->getNameAsString(), python_name);
 #endif
-					else c += "\t\treturn {}::{}({});\n"_format(C->getNameAsString(), m->getNameAsString(), std::get<1>(args));
+					else {
+						bool const base = class_qualified_name(C) != class_name and is_bindable(C); // unqualified name of a base class could be ambiguous or hidden
+						c += "\t\treturn {}::{}({});\n"_format(base ? class_qualified_name(C) : C->getNameAsString(), m->getNameAsString(), std::get<1>(args));
+					}
 				}
 				else {
 					string input_args = std::get<1>(args);
-- 
2.43.0


From acb2b5b05a00aabb5bd790f19be2151a15130af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:18 +0000
Subject: [PATCH 30/49] fix: bases of nested classes could be bound after the
 class that they are nested in

---
 source/class.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index 08900b8..26572d8 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1412,6 +1412,13 @@ string ClassBinder::bind_nested_classes(Context &context)
 			c += b.code();
 			c += '\n';
 			prefix_code_ += b.prefix_code();
+
+			// bases of nested classes must be bound before this class, templates are excluded because for them order of instantiations could lead to circular dependencies
+			if( innerC->getLexicalDeclContext() == C and !isa<ClassTemplateSpecializationDecl>(C) and !isa<ClassTemplateSpecializationDecl>(innerC) ) {
+				for( auto const &d : b.dependencies() ) {
+					if( !d->isCXXClassMember() ) dependencies_.push_back(d);
+				}
+			}
 		}
 	});
 
-- 
2.43.0


From 49cf01476e6bdb87d7b77fb914d00660568dac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:15 +0000
Subject: [PATCH 31/49] fix: _Bool was replaced inside identifiers that contain
 it next to an underscore

---
 source/util.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/util.cpp b/source/util.cpp
index 29b40db..ba1c565 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -200,10 +200,11 @@ string last_namespace(string const &ns)
 void fix_boolean_types(string &type)
 {
 	static string const B("_Bool");
+	auto is_identifier_char = [](char c) { return std::isalnum(static_cast<unsigned char>(c)) or c == '_'; };
+
 	size_t i = 0;
 	while( (i = type.find(B, i)) != string::npos ) {
-		if( (i == 0 or (!std::isalpha(type[i - 1]) and !std::isdigit(type[i - 1]))) and (i + B.size() == type.size() or (!std::isalpha(type[i + B.size()]) and !std::isdigit(type[i + B.size()]))) )
-			type.replace(i, B.size(), "bool");
+		if( (i == 0 or !is_identifier_char(type[i - 1])) and (i + B.size() == type.size() or !is_identifier_char(type[i + B.size()])) ) type.replace(i, B.size(), "bool");
 		++i;
 	}
 }
-- 
2.43.0


From 1f4ba58c1e08b333b3bcc6d2bc4f5a389e6f5dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:15 +0000
Subject: [PATCH 32/49] fix: nullptr_t was qualified with std:: when it was
 qualified already and inside other identifiers

---
 source/type.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/type.cpp b/source/type.cpp
index 4a9cc70..6d56da6 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -519,8 +519,6 @@ string standard_name_raw(string const &type)
 
 		make_pair("class std::__thread_id", "std::thread::id"), make_pair("std::__thread_id", "std::thread::id"),
 
-		make_pair("nullptr_t", "std::nullptr_t"),
-
 		// make_pair("const class ", "const "),
 		// make_pair("const struct ", "const "),
 	};
@@ -528,6 +526,17 @@ string standard_name_raw(string const &type)
 	string r(type);
 	for( auto &p : name_map ) replace(r, p.first, p.second);
 
+	// clang prints std::nullptr_t without the namespace: qualifying it when it is a whole word that is not qualified already
+	static string const nullptr_type("nullptr_t");
+	auto is_identifier_char = [](char c) { return std::isalnum(static_cast<unsigned char>(c)) or c == '_'; };
+	for( size_t i = 0; (i = r.find(nullptr_type, i)) != string::npos; i += nullptr_type.size() ) {
+		size_t end = i + nullptr_type.size();
+		if( (i == 0 or (!is_identifier_char(r[i - 1]) and r[i - 1] != ':')) and (end == r.size() or !is_identifier_char(r[end])) ) {
+			r.insert(i, "std::");
+			i += 5;
+		}
+	}
+
 	// static vector< string > const prefixes = {
 	// 	"enum ",
 	// 	"class ",
-- 
2.43.0


From a582c83d1a4e3ac6d455bcacd057cf7e740fe1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:12 +0000
Subject: [PATCH 33/49] fix: functions that are declared only as friends were
 bound by a name that does not denote them

---
 source/function.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/function.cpp b/source/function.cpp
index 6202b46..e0a5cec 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -529,6 +529,10 @@ bool is_bindable_raw(FunctionDecl const *F)
 		if( !isa<CXXMethodDecl>(F) or (cpp_python_operator(*F).size() == 0) ) return false;
 	}
 
+	// functions that are declared only as a friend inside a class could be found only by argument dependent lookup so there is no name that we can use to refer to them
+	FunctionDecl const *friend_ = F->getPrimaryTemplate() ? F->getPrimaryTemplate()->getTemplatedDecl() : F;
+	if( std::all_of(friend_->redecls_begin(), friend_->redecls_end(), [](FunctionDecl const *d) { return (d->getDescribedFunctionTemplate() ? d->getDescribedFunctionTemplate()->getFriendObjectKind() : d->getFriendObjectKind()) == Decl::FOK_Undeclared; }) ) return false;
+
 	r &= F->getTemplatedKind() != FunctionDecl::TK_FunctionTemplate /*and  !F->isOverloadedOperator()*/ and !isa<CXXConversionDecl>(F) and !F->isDeleted();
 
 	QualType rt(F->getReturnType());
-- 
2.43.0


From 2d9f169d9cf0974b32c5b63beed326e1491e4d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:12 +0000
Subject: [PATCH 34/49] fix: generated code did not compile for member
 functions with ref-qualifiers

---
 source/class.cpp    | 2 +-
 source/function.cpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 26572d8..8c9238b 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -936,7 +936,7 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 						exception_specification = "throw() ";
 				}
 
-				c += "\t{} {}({}){} {}override {{"_format(return_type, m->getNameAsString(), std::get<0>(args), m->isConst() ? " const" : "", exception_specification);
+				c += "\t{} {}({}){} {}override {{"_format(return_type, m->getNameAsString(), std::get<0>(args), string(m->isConst() ? " const" : "") + (m->getRefQualifier() == RQ_LValue ? " &" : ""), exception_specification);
 
 				string member_function_name = namespace_from_named_decl(C);
 				if ( member_function_name.length() > 0 ) member_function_name += "::";
diff --git a/source/function.cpp b/source/function.cpp
index e0a5cec..91f7472 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -252,6 +252,7 @@ string function_pointer_type(FunctionDecl const *F)
 	if( auto m = dyn_cast<CXXMethodDecl>(F) ) {
 		prefix = m->isStatic() ? "" : class_qualified_name(cast<CXXRecordDecl>(F->getParent())) + "::";
 		maybe_const = m->isConst() ? " const" : "";
+		if( m->getRefQualifier() == RQ_LValue ) maybe_const += " &";
 	}
 
 	//r += standard_name(F->getReturnType().getCanonicalType().getAsString());
@@ -539,6 +540,10 @@ bool is_bindable_raw(FunctionDecl const *F)
 
 	r &= is_bindable(rt);
 
+	if( auto m = dyn_cast<CXXMethodDecl>(F) ) {
+		if( m->getRefQualifier() == RQ_RValue ) return false; // objects that are owned by Python are never r-values
+	}
+
 	for( auto p = F->param_begin(); p != F->param_end(); ++p ) r &= is_bindable((*p)->getOriginalType().getCanonicalType());
 	// outs() << "is_bindable: " << F->getQualifiedNameAsString() << " " << r << "\n";
 
-- 
2.43.0


From eb312349e1d50ff892e9e8467584f2c6e96cf8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:12 +0000
Subject: [PATCH 35/49] fix: generated code did not compile for functions that
 use pointers to members or references to functions

---
 source/type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/type.cpp b/source/type.cpp
index 6d56da6..337b871 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -401,7 +401,7 @@ bool is_bindable(QualType const &qt)
 {
 	bool r = true;
 
-	r &= !qt->isFunctionPointerType() and !qt->isRValueReferenceType() and !qt->isInstantiationDependentType() and
+	r &= !qt->isFunctionPointerType() and !qt->isFunctionReferenceType() and !qt->isMemberPointerType() and !qt->isRValueReferenceType() and !qt->isInstantiationDependentType() and
 		 !qt->isArrayType(); // and  !qt->isConstantArrayType()  and  !qt->isIncompleteArrayType()  and  !qt->isVariableArrayType()  and  !qt->isDependentSizedArrayType()
 
 	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) {
-- 
2.43.0


From 2d67d95e71b62b6ce4de5cae329211a28ac296f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:12 +0000
Subject: [PATCH 36/49] fix: types that are local to a function were bound

---
 source/class.cpp | 1 +
 source/enum.cpp  | 1 +
 source/type.cpp  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index 8c9238b..1a0df41 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -338,6 +338,7 @@ bool is_bindable_raw(clang::CXXRecordDecl const *C)
 	// disabling bindings for anonymous namespace's
 	// if( qualified_name.rfind("(anonymous namespace)") != std::string::npos ) return false;
 	if( C->isInAnonymousNamespace() ) return false;
+	if( C->isLambda() or C->getParentFunctionOrMethod() ) return false; // there is no name for lambdas and for types that are local to a function
 	// if( C->isAnonymousStructOrUnion() ) return false;
 	if( !C->hasNameForLinkage() and !C->isCXXClassMember() ) return false;
 
diff --git a/source/enum.cpp b/source/enum.cpp
index a1ca0b9..9eec3b9 100644
--- a/source/enum.cpp
+++ b/source/enum.cpp
@@ -50,6 +50,7 @@ bool is_bindable(EnumDecl const *E)
 
 	if( E->isCXXInstanceMember() ) return false;
 	if( E->isInAnonymousNamespace() ) return false;
+	if( E->getParentFunctionOrMethod() ) return false; // there is no name for types that are local to a function
 
 	string name = E->getNameAsString(); // getQualifiedNameAsString(); //
 	// if( name.rfind(')') != string::npos ) return false; // checking that this is not an "(anonymous)" enum
diff --git a/source/type.cpp b/source/type.cpp
index 337b871..0c9b4c6 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -443,6 +443,7 @@ bool is_bindable(QualType const &qt)
 		if( TagDecl *td = tp->getAsTagDecl() ) {
 			if( !is_accessible(td) ) return false;
 			if( td->isInAnonymousNamespace() ) return false;
+			if( td->getParentFunctionOrMethod() ) return false;
 		}
 	}
 
-- 
2.43.0


From d38d1d87b1203c9a6da8346a4f7d76d71ad8c3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:12 +0000
Subject: [PATCH 37/49] fix: instances of function templates with default
 arguments were called without template arguments

---
 source/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function.cpp b/source/function.cpp
index 91f7472..3c0eb1b 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -414,11 +414,11 @@ string bind_function(FunctionDecl const *F, uint args_to_bind, bool request_bind
 			// string object = class_qualified_name( m->getParent() ) + (m->isConst() ? " const" : "") + " &o" + ( args_to_bind ? ", " : "" );
 			string object = class_qualified_name(parent ? parent : m->getParent()) + (m->isConst() ? " const" : "") + " &o" +
 							(args_to_bind ? ", " : ""); // forcing object type to be of parent class so member function with lifted access could be used
-			function = "[]({}{}) -> {} {{ return o.{}({}); }}"_format(object, args.first, return_type, F->getNameAsString(), args.second);
+			function = "[]({}{}) -> {} {{ return o.{}({}); }}"_format(object, args.first, return_type, F->getNameAsString() + template_specialization(F), args.second);
 		}
 		else {
 			string const maybe_global = function_qualified_name.find("::") == string::npos ? "::" : ""; // unqualified name could be found by argument dependent lookup in other namespaces too
-			function = "[]({}) -> {} {{ return {}{}({}); }}"_format(args.first, return_type, maybe_global, function_qualified_name, args.second);
+			function = "[]({}) -> {} {{ return {}{}({}); }}"_format(args.first, return_type, maybe_global, function_qualified_name + template_specialization(F), args.second);
 		}
 	}
 
-- 
2.43.0


From d22ecea0a87a6ee4e4149a27926fd034551d5306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:12 +0000
Subject: [PATCH 38/49] fix: call-back structures did not compile for virtual
 functions with C-style variadic arguments

---
 source/class.cpp    | 4 ++--
 source/function.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 1a0df41..7deef2f 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -819,9 +819,9 @@ bool is_callback_structure_constructible(CXXRecordDecl const *C)
 
 		for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
 #if( LLVM_VERSION_MAJOR >= 18 )
-			if( m->isPureVirtual() and !isa<CXXConstructorDecl>(*m) and (m->getAccess() == AS_private or !is_bindable(*m) or is_skipping_requested(*m, Config::get())) ) return false;
+			if( m->isPureVirtual() and !isa<CXXConstructorDecl>(*m) and (m->getAccess() == AS_private or !is_bindable(*m) or !is_overloadable(*m) or is_skipping_requested(*m, Config::get())) ) return false;
 #else
-			if( m->isPure() and !isa<CXXConstructorDecl>(*m) and (m->getAccess() == AS_private or !is_bindable(*m) or is_skipping_requested(*m, Config::get())) ) return false;
+			if( m->isPure() and !isa<CXXConstructorDecl>(*m) and (m->getAccess() == AS_private or !is_bindable(*m) or !is_overloadable(*m) or is_skipping_requested(*m, Config::get())) ) return false;
 #endif
 		}
 
diff --git a/source/function.cpp b/source/function.cpp
index 3c0eb1b..995e98a 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -587,8 +587,8 @@ bool is_bindable(FunctionDecl const *F)
 /// check if methods could be overload in Python
 bool is_overloadable(CXXMethodDecl const *M)
 {
-	// Pybind11 now allow returning a reference to primitive types or string so for now always return true
-	return true;
+	// Pybind11 now allow returning a reference to primitive types or string so the only functions that we can not override are the ones with C-style variadic arguments
+	return !M->isVariadic();
 
 	/*
 	QualType qt = M->getReturnType().getCanonicalType();
-- 
2.43.0


From a2e415329dc3f8b42772e296e62d48ee032bc962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:12 +0000
Subject: [PATCH 39/49] fix: call-back structures used a wrong exception
 specification for noexcept( expression )

---
 source/class.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 7deef2f..6d068fb 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -931,10 +931,8 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 
 				string exception_specification;
 				if( FunctionProtoType const *fpt = dyn_cast<FunctionProtoType>(m->getType().getTypePtr()) ) {
-					if( fpt->getExceptionSpecType() & clang::ExceptionSpecificationType::EST_BasicNoexcept ) exception_specification = "noexcept ";
-					if( fpt->getExceptionSpecType() &
-						(clang::ExceptionSpecificationType::EST_DynamicNone | clang::ExceptionSpecificationType::EST_Dynamic | clang::ExceptionSpecificationType::EST_MSAny) )
-						exception_specification = "throw() ";
+					if( fpt->isNothrow() ) exception_specification = "noexcept ";
+					else if( fpt->getExceptionSpecType() == clang::ExceptionSpecificationType::EST_Dynamic ) exception_specification = "throw() ";
 				}
 
 				c += "\t{} {}({}){} {}override {{"_format(return_type, m->getNameAsString(), std::get<0>(args), string(m->isConst() ? " const" : "") + (m->getRefQualifier() == RQ_LValue ? " &" : ""), exception_specification);
-- 
2.43.0


From 42d0bfa5496a08e4fa00b0fc925e4b40bbbac6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:12 +0000
Subject: [PATCH 40/49] fix: include for declarations that are produced by
 macros was not generated

---
 source/type.cpp | 2 +-
 source/util.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/type.cpp b/source/type.cpp
index 0c9b4c6..aba77aa 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -83,7 +83,7 @@ string relevant_include(NamedDecl const *decl)
 	ASTContext &ast_context(decl->getASTContext());
 	SourceManager &sm(ast_context.getSourceManager());
 
-	FileID fid = sm.getFileID(decl->getLocation());
+	FileID fid = sm.getFileID(sm.getExpansionLoc(decl->getLocation())); // declaration could be produced by a macro
 	SourceLocation include = sm.getIncludeLoc(fid);
 
 	// outs() << "SL: "; include.dump(sm); outs() << "\n";
diff --git a/source/util.cpp b/source/util.cpp
index ba1c565..9eba59d 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -263,7 +263,7 @@ string line_number(NamedDecl const *decl)
 	ASTContext &ast_context(decl->getASTContext());
 	SourceManager &sm(ast_context.getSourceManager());
 
-	return std::to_string(sm.getSpellingLineNumber(decl->getLocation()));
+	return std::to_string(sm.getExpansionLineNumber(decl->getLocation()));
 }
 
 
-- 
2.43.0


From 8ebdd375053dc724b90f32bb90602d6e17459d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:20 +0000
Subject: [PATCH 41/49] fix: call-back structures did not compile for volatile
 virtual functions

---
 source/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function.cpp b/source/function.cpp
index 995e98a..c543ab7 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -587,8 +587,8 @@ bool is_bindable(FunctionDecl const *F)
 /// check if methods could be overload in Python
 bool is_overloadable(CXXMethodDecl const *M)
 {
-	// Pybind11 now allow returning a reference to primitive types or string so the only functions that we can not override are the ones with C-style variadic arguments
-	return !M->isVariadic();
+	// Pybind11 now allow returning a reference to primitive types or string so the only functions that we can not override are the ones with C-style variadic arguments and volatile ones
+	return !M->isVariadic() and !M->isVolatile();
 
 	/*
 	QualType qt = M->getReturnType().getCanonicalType();
-- 
2.43.0


From bc25826def171ab293ac2d4b68e88fc9f57508ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:37 +0000
Subject: [PATCH 42/49] fix: deduction guides were bound as functions

---
 source/function.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/function.cpp b/source/function.cpp
index c543ab7..ef86c9b 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -522,6 +522,8 @@ bool is_bindable_raw(FunctionDecl const *F)
 		else return false;
 	}
 
+	if( isa<CXXDeductionGuideDecl>(F) ) return false;
+
 	// bool r = true;
 	bool r = !F->isDeleted(); //  and  !F->isVariadic(); disabled, instead we force bindings with lambda for variadic
 
-- 
2.43.0


From 948855db52a7b5e8002f913003f9a099296b3938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:39 +0000
Subject: [PATCH 43/49] fix: default constructor was not bound when a base of a
 base has no default constructor

---
 source/class.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 6d068fb..96b5f97 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -588,7 +588,11 @@ bool members_default_constructible(CXXRecordDecl const *C);
 // Check if all bases have public default constructors
 bool base_default_default_constructor_available(CXXRecordDecl const *C)
 {
-	for( auto b = C->bases_begin(); b != C->bases_end(); ++b ) {
+	std::vector<CXXBaseSpecifier const *> bases;
+	for( auto b = C->bases_begin(); b != C->bases_end(); ++b ) bases.push_back(b);
+	for( auto b = C->vbases_begin(); b != C->vbases_end(); ++b ) bases.push_back(b); // virtual bases, including indirect ones, are initialized by constructor of C
+
+	for( auto b : bases ) {
 		if( auto rt = dyn_cast<RecordType>(b->getType().getCanonicalType().getTypePtr()) ) {
 			if( CXXRecordDecl *R = cast<CXXRecordDecl>(rt->getDecl()) ) {
 
@@ -600,9 +604,7 @@ bool base_default_default_constructor_available(CXXRecordDecl const *C)
 					}
 				}
 
-				if( !base_default_default_constructor_available(R) ) return false;
-
-				if( R->needsImplicitDefaultConstructor() and !members_default_constructible(R) ) return false;
+				if( R->needsImplicitDefaultConstructor() and !(base_default_default_constructor_available(R) and members_default_constructible(R)) ) return false;
 			}
 		}
 	}
-- 
2.43.0


From 9d0e1ed884d9c363994d2f7bd410e2d7850f2499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:21 +0000
Subject: [PATCH 44/49] fix: global function with name M could not be bound

---
 source/function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/function.cpp b/source/function.cpp
index ef86c9b..eaf5798 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -384,7 +384,8 @@ string bind_function(FunctionDecl const *F, uint args_to_bind, bool request_bind
 
 	string function, documentation;
 	if( args_to_bind == F->getNumParams() and (not always_use_lambda) ) {
-		function = "({}) &{}{}"_format(function_pointer_type(F), function_qualified_name, template_specialization(F));
+		string const maybe_global = function_qualified_name == "M" ? "::" : ""; // name of global function could be hidden by the name of argument of binding function
+		function = "({}) &{}{}{}"_format(function_pointer_type(F), maybe_global, function_qualified_name, template_specialization(F));
 
 		documentation = generate_documentation_string_for_declaration(F);
 		if( documentation.size() ) documentation += "\\n\\n";
-- 
2.43.0


From 2980a93a3580c9f8fd66bd54e14f725a95c10991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:20 +0000
Subject: [PATCH 45/49] fix: classes derived from nested classes could not be
 bound, bases of nested classes of templates were bound too late

---
 source/class.cpp | 54 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 96b5f97..a88ff57 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1128,6 +1128,42 @@ string bind_forward_declaration(CXXRecordDecl const *C, Context &context)
 }
 
 
+/// find outermost class in which given class is nested or class itself if it is not nested
+static CXXRecordDecl const *outermost_class(CXXRecordDecl const *C)
+{
+	while( CXXRecordDecl const *outer = dyn_cast<CXXRecordDecl>(C->getDeclContext()) ) C = outer;
+	return C;
+}
+
+/// check if user requested skipping for given class or for one of the classes that it is nested in
+static bool is_class_or_outer_class_skipping_requested(CXXRecordDecl const *C, Config const &config)
+{
+	for( ; C; C = dyn_cast<CXXRecordDecl>(C->getDeclContext()) ) {
+		if( is_skipping_requested(C, config) ) return true;
+	}
+	return false;
+}
+
+/// check if class A, one of its bases or one of its nested classes is derived from class B or from class that is nested in B
+static bool is_dependent_on(CXXRecordDecl const *A, CXXRecordDecl const *B, std::set<CXXRecordDecl const *> &visited)
+{
+	if( A == B ) return true;
+	if( !A->hasDefinition() or !visited.insert(A->getDefinition()).second ) return false;
+	A = A->getDefinition();
+
+	for( auto const &b : A->bases() ) {
+		if( CXXRecordDecl const *R = b.getType()->getAsCXXRecordDecl() ) {
+			if( is_dependent_on(outermost_class(R), B, visited) ) return true;
+		}
+	}
+	for( auto const *d : A->decls() ) {
+		if( CXXRecordDecl const *R = dyn_cast<CXXRecordDecl>(d) ) {
+			if( !R->isInjectedClassName() and is_dependent_on(R, B, visited) ) return true;
+		}
+	}
+	return false;
+}
+
 /// check if any of the base classes is wrappable and if generate a string describing them: , pybind11::base<BaseClass>()
 string ClassBinder::maybe_base_classes(Context &context)
 {
@@ -1141,13 +1177,18 @@ string ClassBinder::maybe_base_classes(Context &context)
 				if( CXXRecordDecl *R = cast<CXXRecordDecl>(rt->getDecl()) ) {
 					auto e = std::find(skip_list.begin(), skip_list.end(), standard_name(R->getQualifiedNameAsString()));
 
-					if( e == skip_list.end() and is_bindable(R) and !is_skipping_requested(R, Config::get()) ) {
+					if( e == skip_list.end() and is_bindable(R) and !is_class_or_outer_class_skipping_requested(R, Config::get()) ) {
 						// r = ", pybind11::base<{}>()"_format( class_qualified_name(R) );
 						r += ", {}"_format(class_qualified_name(R));
 
 						binder::request_bindings(b->getType().getCanonicalType(), context);
 
-						dependencies_.push_back(R);
+						// nested classes are bound together with the class that they are nested in
+						CXXRecordDecl const *outermost = outermost_class(R);
+						if( outermost != outermost_class(C) ) {
+							if( outermost != R ) binder::request_bindings(C->getASTContext().getRecordType(outermost), context);
+							dependencies_.push_back(outermost);
+						}
 					}
 				}
 			}
@@ -1414,11 +1455,10 @@ string ClassBinder::bind_nested_classes(Context &context)
 			c += '\n';
 			prefix_code_ += b.prefix_code();
 
-			// bases of nested classes must be bound before this class, templates are excluded because for them order of instantiations could lead to circular dependencies
-			if( innerC->getLexicalDeclContext() == C and !isa<ClassTemplateSpecializationDecl>(C) and !isa<ClassTemplateSpecializationDecl>(innerC) ) {
-				for( auto const &d : b.dependencies() ) {
-					if( !d->isCXXClassMember() ) dependencies_.push_back(d);
-				}
+			// bases of nested classes must be bound before this class, unless they depend on it
+			for( auto const &d : b.dependencies() ) {
+				std::set<CXXRecordDecl const *> visited;
+				if( !is_dependent_on(d, outermost_class(C), visited) ) dependencies_.push_back(d);
 			}
 		}
 	});
-- 
2.43.0


From 12e9a33de3ddd61527a0be5b7e2a4b2e1e40497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:20 +0000
Subject: [PATCH 46/49] fix: operator<< of a template with the same name from
 other namespace was used for __str__

---
 source/context.cpp | 19 +++++++++++++------
 source/context.hpp |  2 +-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/source/context.cpp b/source/context.cpp
index 78cafe0..da2e25d 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -157,7 +157,7 @@ void Context::add(BinderOP &b)
 
 void Context::add_insertion_operator(clang::FunctionDecl const *F)
 {
-	insertion_operators[function_pointer_type(F)] = F;
+	insertion_operators[function_pointer_type(F)].push_back(F);
 }
 
 /// find global insertion operator for given type, return nullptr if not such operator find
@@ -168,13 +168,13 @@ clang::FunctionDecl const *Context::global_insertion_operator(clang::CXXRecordDe
 	// outs() << "Looking for operator: " << op_pointer << "\n";
 
 	auto it = insertion_operators.find(op_pointer);
-	if( it != insertion_operators.end() ) return it->second;
+	if( it != insertion_operators.end() ) return it->second.back();
 
 	for( auto &f : insertion_operators ) { // names of template arguments could be spelled differently, so compare types
-		if( begins_with(f.first, "std::ostream & (*)(std::ostream &, const ") and f.second->getNumParams() == 2 ) {
-			ReferenceType const *rt = f.second->getParamDecl(1)->getType()->getAs<ReferenceType>();
+		if( begins_with(f.first, "std::ostream & (*)(std::ostream &, const ") and f.second.back()->getNumParams() == 2 ) {
+			ReferenceType const *rt = f.second.back()->getParamDecl(1)->getType()->getAs<ReferenceType>();
 			CXXRecordDecl const *r = rt ? rt->getPointeeType()->getAsCXXRecordDecl() : nullptr;
-			if( r and r->getCanonicalDecl() == C->getCanonicalDecl() ) return f.second;
+			if( r and r->getCanonicalDecl() == C->getCanonicalDecl() ) return f.second.back();
 		}
 	}
 
@@ -190,7 +190,14 @@ clang::FunctionDecl const *Context::global_insertion_operator(clang::CXXRecordDe
 		// outs() << "Looking for operator: " << op_pointer << "\n";
 
 		auto it = insertion_operators.find(op_pointer);
-		if( it != insertion_operators.end() ) return it->second;
+		if( it != insertion_operators.end() ) {
+			for( auto f = it->second.rbegin(); f != it->second.rend(); ++f ) { // name of template has no namespaces here, so make sure that operator is for this template
+				ReferenceType const *rt = (*f)->getParamDecl(1)->getType()->getAs<ReferenceType>();
+				TemplateSpecializationType const *ts = rt ? rt->getPointeeType().getCanonicalType()->getAs<TemplateSpecializationType>() : nullptr;
+				TemplateDecl const *td = ts ? ts->getTemplateName().getAsTemplateDecl() : nullptr;
+				if( td and td->getCanonicalDecl() == t->getSpecializedTemplate()->getCanonicalDecl() ) return *f;
+			}
+		}
 	}
 
 	// outs() << "Have not found... it\n";
diff --git a/source/context.hpp b/source/context.hpp
index c1b18f4..c15dfb2 100644
--- a/source/context.hpp
+++ b/source/context.hpp
@@ -67,7 +67,7 @@ private:
 
 
 	/// map of function-ptr -> Decl* for global instertion operators so we can determine for which types we can bind __repr__
-	std::map<std::string, clang::FunctionDecl const *> insertion_operators;
+	std::map<std::string, std::vector<clang::FunctionDecl const *>> insertion_operators;
 
 	/// array of all binders from translation unit
 	std::vector<BinderOP> binders;
-- 
2.43.0


From 218efe5ec5d9eac55b17b26da2b97afa43b7ef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:05 +0000
Subject: [PATCH 47/49] fix: custom trampoline functions of base classes were
 instantiated with call-back structure of the base

---
 source/class.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index a88ff57..249762e 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -878,7 +878,7 @@ if (overload) {{
 
 
 // generate call-back overloads for all public virtual functions in C including it bases
-string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const &class_name, /*string const & base_type_alias,*/ set<string> &binded, int &ret_id,
+string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const &class_name, string const &callback_name, /*string const & base_type_alias,*/ set<string> &binded, int &ret_id,
 										   std::vector<clang::FunctionDecl const *> &prefix_includes_ /*, std::set<clang::NamedDecl const *> &prefix_includes_stack*/)
 {
 	string c;
@@ -957,7 +957,7 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 				}
 				else {
 					string input_args = std::get<1>(args);
-					c += "\n\t\treturn {}<{},{}>(this, \"{}\", \"{}\""_format(custom_function_info, C->getNameAsString(), callback_structure_name(C), class_name, m->getNameAsString());
+					c += "\n\t\treturn {}<{},{}>(this, \"{}\", \"{}\""_format(custom_function_info, C->getNameAsString(), callback_name, class_name, m->getNameAsString());
 					if ( input_args.length() > 0 )
 						c += ", {}"_format(std::get<1>(args));
 					c += ");\n";
@@ -995,7 +995,7 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 			if( auto rt = dyn_cast<RecordType>(b->getType().getCanonicalType().getTypePtr()) ) {
 				if( CXXRecordDecl *R = cast<CXXRecordDecl>(rt->getDecl()) ) {
 					// add_relevant_includes(R, prefix_includes, prefix_includes_stack, 0);
-					c += bind_member_functions_for_call_back(R, class_name, /*base_type_alias,*/ binded, ret_id, prefix_includes_);
+					c += bind_member_functions_for_call_back(R, class_name, callback_name, /*base_type_alias,*/ binded, ret_id, prefix_includes_);
 				}
 			}
 		}
@@ -1017,7 +1017,7 @@ void ClassBinder::generate_prefix_code()
 
 	set<string> binded;
 	int ret_id = 0;
-	prefix_code_ += bind_member_functions_for_call_back(C, class_qualified_name(C), /*base_type_alias,*/ binded, ret_id, prefix_includes_);
+	prefix_code_ += bind_member_functions_for_call_back(C, class_qualified_name(C), callback_structure_name(C), /*base_type_alias,*/ binded, ret_id, prefix_includes_);
 	prefix_code_ += "};\n\n";
 }
 
-- 
2.43.0


From 76b9b60bedae53c88d0cf42b791943c2b5d3e402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:17 +0000
Subject: [PATCH 48/49] fix: copy constructor of trampoline is not bound when
 virtual bases of abstract class can not be copied

---
 source/class.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index 249762e..6b327fe 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1353,6 +1353,16 @@ string bind_copy_constructor(ConstructorBindingInfo const &CBI) // CXXConstructo
 	// 	else return "\tcl.def(pybind11::init<{} const &>());\n"_format( CBI.class_qualified_name );
 	// }
 
+	if( CBI.trampoline and CBI.C->isAbstract() ) { // virtual bases of abstract class are copied by trampoline itself
+		for( auto const &b : CBI.C->vbases() ) {
+			if( CXXRecordDecl const *R = b.getType()->getAsCXXRecordDecl() ) {
+				for( auto t : R->ctors() ) {
+					if( t->isCopyConstructor() and (t->isDeleted() or t->getAccess() == AS_private) ) return "";
+				}
+			}
+		}
+	}
+
 	unsigned typequals;
 	string const_bit;
 
-- 
2.43.0


From 6c6dd7652bc553d7a263e2df2343a09ecfa745f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:18 +0000
Subject: [PATCH 49/49] fix: nested enum that is declared first and defined
 later was bound twice

---
 source/class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 6b327fe..3c01338 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1632,7 +1632,7 @@ void ClassBinder::bind(Context &context)
 	// binding public enums
 	for( auto d = C->decls_begin(); d != C->decls_end(); ++d ) {
 		if( EnumDecl *e = dyn_cast<EnumDecl>(*d) ) {
-			if( e->getAccess() == AS_public and is_bindable(e) ) {
+			if( e->isFirstDecl() and e->getAccess() == AS_public and is_bindable(e) ) { // enum could be declared first and defined later
 				if( is_skipping_requested(e, Config::get()) ) {
 					//outs() << "Skipping inner class Enum: " << e->getQualifiedNameAsString() << "\n";
 				}
-- 
2.43.0

