"""The property list: `python3 lib/props.py` rewrites properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['source/' + f for f in files], state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where='source/' + b) for a, b in mech], observe_at=list(observe) or ['generated C++ sources, compiled and executed', 'exit status'], hook_needed=None)))
T = 'The self tests compare the text of one output per header for about 50 fixed headers, each with one fixed configuration; '

p('C01', 'Namespace rules select exactly the requested namespaces',
  'For every set of namespace bind and skip rules (command line --bind/--skip and config +namespace/-namespace lines together), an entity that no other rule names is bound exactly when the longest rule path that equals its namespace or is an enclosing namespace of it, compared component by component, is a bind rule; with no matching rule it is not bound, and the empty path binds everything that is not from a system header (a function is in addition selected by a bind rule for a type its signature mentions, and rejected by a skip rule for one). '
  'When a bind rule and a skip rule of the same length both match, the run fails with an error instead of choosing. The order and the origin of the rules make no difference.',
  ['inputs', 'configurations'], 'all headers, all finite sets of namespace rules in any order and from any source',
  T + 'only a handful contain any namespace rule and none combines nested bind and skip rules or namespaces whose names are prefixes of each other.',
  ['config.cpp', 'class.cpp', 'function.cpp', 'enum.cpp', 'context.cpp'],
  [('Config::is_namespace_binding_requested / is_namespace_skipping_requested', 'config.cpp'), ('namespace_from_named_decl', 'util.cpp'), ('Context::bind', 'context.cpp')])
p('C02', 'Explicit directives override namespace rules, and more specific ones win',
  'A +class/-class, +enum/-enum, +function/-function or -field directive decides for the entity it names whatever the namespace rules say, and a skipped entity appears nowhere in the output: not on its own, not as a member, not as a base, and no function or method whose signature mentions a skipped class is bound. '
  'A directive naming one template specialization (or one function signature) wins over one naming the template (or the bare name), and among equally specific ones skip wins over bind. Directives affect nothing but what they name and what depends on it.',
  ['inputs', 'configurations'], 'all headers and all sets of class, enum, function and field directives combined with namespace rules',
  T + 'there are a few single directives, no conflicting or layered ones, and none on nested classes, template specializations or overloads.',
  ['config.cpp', 'class.cpp', 'function.cpp', 'enum.cpp', 'type.cpp'],
  [('is_skipping_requested / is_binding_requested for classes', 'class.cpp'), ('is_skipping_requested / is_binding_requested for functions', 'function.cpp'), ('is_skipping_requested / is_binding_requested for enums', 'enum.cpp'), ('Config::is_*_requested', 'config.cpp')])
p('C03', 'Nothing inaccessible or unusable is ever exposed',
  'No output ever binds a private or protected member, nested type, base or constructor (unless a public using-declaration makes it public), a deleted function, a template pattern, anything from an anonymous namespace or local to a function, a friend function, or a function whose signature contains such a type, an incomplete class, an r-value reference, an array, a function pointer, a pointer to pointer, a pointer to member, or a standard type that pybind11 can not pass (std::initializer_list; std::pair and std::tuple taken by pointer or non-const reference). '
  'Such declarations never make the generated code fail to compile.',
  ['inputs'], 'all headers: every combination of access, declaration kind and signature type',
  T + 'absence is only visible where a test happens to contain a near miss.',
  ['class.cpp', 'function.cpp', 'enum.cpp', 'type.cpp'],
  [('is_bindable(QualType)', 'type.cpp'), ('is_bindable(CXXRecordDecl), is_bindable(FieldDecl)', 'class.cpp'), ('is_bindable(FunctionDecl)', 'function.cpp'), ('is_bindable(EnumDecl)', 'enum.cpp')])
p('C04', 'Every public usable member of a bound class is bound, exactly once',
  'For every bound class, every public member function, member-template instantiation, data member, nested class, nested enum, and every member that a public using-declaration lifts, is registered on that class unless a skip directive covers it or its signature is not bindable. '
  'Nothing is registered twice: the set of registered members is exactly the set of eligible declarations.',
  ['inputs', 'programs'], 'all class shapes: any mix of accesses, overloads, const overloads, statics, nesting, using-declarations and bases',
  T + 'a member dropped or duplicated in any shape the fixed headers do not contain goes unnoticed.',
  ['class.cpp', 'function.cpp'],
  [('binding_public_member_functions, binding_public_data_members, bind_nested_classes', 'class.cpp'), ('is_const_overload', 'class.cpp'), ('ClassBinder::bind', 'class.cpp')])
p('C05', 'Bound signatures and bases pull in every type they mention',
  'The set of bound types is the least set that contains everything requested and, for each bound function, method, constructor and class, every complete bindable class and enum of namespace level its parameters, return type (through pointers, references and typedefs) and public bases mention, unless that type is skipped or a Python builtin; types from system headers or from namespaces with no rule are included in this way and in no other. '
  'The result does not depend on the order in which declarations appear.',
  ['inputs', 'programs'], 'all dependency graphs between classes, enums and functions, of any length, cyclic or not, in any declaration order',
  T + 'reference chains in them are one or two steps long and always in one fixed order.',
  ['context.cpp', 'function.cpp', 'class.cpp', 'type.cpp'],
  [('request_bindings', 'type.cpp'), ('Context::request_bindings, Context::bind (fixed point loop)', 'context.cpp'), ('ClassBinder::maybe_base_classes', 'class.cpp')],
  [('binders / types', 'all candidate objects and the type-name index used to request them', 'source/context.hpp')])
p('C06', 'Base classes are registered before derived ones, with the right bases',
  'For every inheritance graph and every declaration order, each bound class is registered with exactly its public, bindable, not skipped bases, in declaration order, and all of those classes have been registered earlier in the sequence the module executes, so that importing the module never fails on an unknown base. '
  'Generation terminates, and reordering loses or duplicates no binding.',
  ['inputs', 'programs'], 'all acyclic inheritance graphs (including templates instantiated with later-declared classes) in all declaration orders',
  T + 'in them a base nearly always precedes its derived classes in the input already, so the reordering step is hardly ever exercised.',
  ['context.cpp', 'class.cpp'],
  [('Context::sort_binders', 'context.cpp'), ('ClassBinder::maybe_base_classes, dependencies_', 'class.cpp')],
  [('binders order', 'the emission order', 'source/context.cpp'), ('binded', 'classes already emitted during sorting', 'source/context.cpp')])
p('C07', 'C++ namespaces map one to one to Python submodules',
  'Every bound entity is registered in the Python module whose dotted path is its C++ namespace path (global entities in the root module, nested ones in their class), a component that is one of the reserved words the tool renames (global, nonlocal) getting a trailing underscore. '
  'A submodule exists exactly for each namespace with bound content and for each of its enclosing namespaces, each is created exactly once and before anything uses it, its parent before itself, and the modules list names the same namespaces.',
  ['inputs', 'configurations'], 'all namespace trees, including empty intermediate and reserved-word namespaces',
  T + 'no test has deep trees with empty levels and the generated module is never executed for most of them.',
  ['context.cpp', 'util.cpp'],
  [('Context::create_all_nested_namespaces, main_module_header', 'context.cpp'), ('namespace_from_named_decl, base_namespace, last_namespace', 'util.cpp')])
p('C08', 'Generated files partition the bindings whatever the size limit and layout',
  'For every --max-file-size, with and without --flat and --single-file, every binding lands in exactly one generated file, each generated function has a unique name, is declared and called exactly once by the root file, and file names are unique, so that the files together always compile, link and produce the same module. '
  'The .sources list names exactly the files that make up the module (a file is closed only at a namespace change or once it has reached the limit); --flat puts every file directly in the output directory, and without it the files follow the directories of the headers. Generation always terminates.',
  ['inputs', 'configurations'], 'all inputs, size limits, layouts and header naming schemes (same names in different directories, names differing only in punctuation)',
  T + 'nearly all of them use one file only, so chunking and naming are never exercised.',
  ['context.cpp', 'util.cpp'],
  [('Context::generate', 'context.cpp'), ('file_name_prefix_for_binder', 'context.cpp')],
  [('file_names / used names', 'names already given out', 'source/context.cpp')], ['file tree under --prefix', '.sources file'])
p('C09', 'Output is a function of the input; reruns repair and touch only what changed',
  'Two runs on the same input produce the same bytes, whatever was in the output directory before and whatever order directives of different kinds are given in. '
  'A rerun with unchanged input does not rewrite up-to-date binding files (their modification time stays), a rerun after a changed input leaves exactly the files a fresh run would produce for every listed source, and after a crash at any write of an earlier run a later run produces the same result as if the crash had not happened.',
  ['histories', 'crash_points', 'configurations'], 'all histories of runs, edits, crashes at any file operation and restarts in one output directory',
  'No existing test runs the tool twice on one directory or interrupts it.',
  ['util.cpp', 'context.cpp'],
  [('update_source_file', 'util.cpp'), ('Context::generate', 'context.cpp')], [], ['file tree under --prefix after each run', 'system calls of the tool'])
p('C10', 'Failures are reported, never swallowed',
  'If any output file or directory cannot be created, opened, written or closed completely, or the configuration or the input cannot be read or is invalid, the run ends with a non-zero status; a run that ends with status zero has written every listed file completely. '
  'The tool never hangs.',
  ['fault_sequences', 'crash_points', 'configurations'], 'every file operation of a run failing (missing directory, no permission, disk full at any write), every malformed input',
  'No existing test provokes a failing file operation.',
  ['util.cpp', 'context.cpp', 'config.cpp', 'main.cpp'],
  [('update_source_file', 'util.cpp'), ('Context::generate', 'context.cpp'), ('Config::read', 'config.cpp')], [], ['exit status', 'file tree under --prefix'])
p('C11', 'Each bound callable calls exactly its C++ function, in every arity',
  'Every function and method is registered under its C++ name once for each number of arguments that its default arguments allow and for no other number, with the parameter names in order; calling any of these registrations runs exactly that C++ overload, on the given object, with the arguments in order and the C++ default values for the omitted ones, and gives back its result with the C++ type. '
  'Overloads, const and non-const variants (the non-const one wins when both exist), static, variadic and template functions never get mixed up, and static methods get the configured name prefix.',
  ['inputs', 'programs'], 'all signatures: every number and position of default arguments, overload sets, const/static/variadic/template variants and type spellings',
  T + 'it is the text that is compared and almost nothing generated is ever called.',
  ['function.cpp', 'class.cpp'],
  [('bind_function', 'function.cpp'), ('function_arguments_for_lambda, function_pointer_type', 'function.cpp'), ('is_const_overload', 'class.cpp')])
p('C12', 'Exactly the usable constructors are bound and build the right object',
  'A class gets a Python constructor for each public, usable, not skipped C++ constructor (moves excepted, inherited constructors included), in each arity its default arguments allow, and a default constructor exactly when C++ code could default construct it; abstract classes get constructors only through an override-able subclass that can really be instantiated. '
  'Each one runs exactly that constructor with the given arguments.',
  ['inputs', 'programs'], 'all constructor sets: access, deletion, defaults, default arguments, inherited constructors, members and bases without default constructor, abstract classes',
  T + 'few constructor shapes are covered and none is called.',
  ['class.cpp'],
  [('ClassBinder::bind (constructors)', 'class.cpp'), ('bind_constructor, bind_default_constructor, bind_copy_constructor', 'class.cpp'), ('base_default_default_constructor_available', 'class.cpp')])
p('C13', 'Public data members are bound, read-only when they must be',
  'Every public non-static data member that is not a pointer, reference, array or bit-field and has a bindable type, and each one lifted to public by a using-declaration, is bound under its own name and refers to that very member of the object; it is writable unless the member is const or its type cannot be copy-assigned publicly, in which case it is read-only. '
  'No other data member is bound.',
  ['inputs'], 'all data member types, qualifiers, accesses and using-declarations',
  T + 'only plain members occur, assignments are never executed.',
  ['class.cpp'], [('binding_public_data_members, bind_data_member, is_field_assignable', 'class.cpp')])
p('C14', 'Enums are bound with exactly their enumerators and values',
  'Each bound enum (at namespace level or public in a bound class) has exactly its enumerators in order, each name paired with its own value; its values are exported to the enclosing scope unless it was declared as enum class, and it supports arithmetic exactly when it is unscoped. '
  'Unnamed enums and enums that are not accessible are not bound.',
  ['inputs'], 'all enum declarations: scoped or not, any values, any scope',
  T + 'one header with a few enums.',
  ['enum.cpp', 'class.cpp'], [('bind_enum, is_bindable(EnumDecl)', 'enum.cpp'), ('ClassBinder::bind (public enums)', 'class.cpp')])
p('C15', 'Member operators map to the matching Python special methods',
  'A public member operator is registered under the Python method that has its meaning and number of operands (unary and binary forms of one symbol get different names), and calling that name runs that operator. '
  'Operators with no mapping, conversion operators and free operators are never registered as functions.',
  ['inputs'], 'all overloadable operators, in unary, binary and n-ary forms, in any class',
  T + 'one header lists each operator once, textually.',
  ['function.cpp'], [('cpp_python_operator, python_function_name', 'function.cpp')])
p('C16', 'Python overrides of virtual functions are reached from C++',
  'A bound class with overridable virtual functions that is not final gets an override-able subclass in which every non-private, not skipped, not final virtual function with a bindable signature (C variadic and volatile ones aside), inherited ones included, dispatches to the Python override of that name with the same arguments, and otherwise runs the most derived C++ implementation, a pure one reporting an error. '
  'The subclass is offered only if it can be instantiated; a custom trampoline function replaces exactly the function it names.',
  ['inputs', 'programs'], 'all virtual function sets: pure, const, protected, private, final, overloaded, overridden along any inheritance graph',
  T + 'two headers, compared textually, no override is ever executed.',
  ['class.cpp'], [('is_callback_structure_needed, is_callback_structure_constructible', 'class.cpp'), ('bind_member_functions_for_call_back, call_back_function_body_template', 'class.cpp')])
p('C17', 'Each template instantiation is bound separately under a distinct name',
  'Each class template instantiation that is used and selected is bound as its own class with its own member types, under a Python identifier made of the template name and the spelling of every argument (separators becoming single underscores, the characters * & - spelled out, ending in t), so that different instantiations get different names; members it inherits from public bases are available on it. '
  'Instantiated function and member templates are overloads under the plain function name; uninstantiated templates are not bound, and class template instantiations are not bound by namespace rules when --bind-class-template-specialization=0.',
  ['inputs', 'configurations'], 'all template argument lists: types, integers, bools, enums, pointers, packs, nested instantiations',
  T + 'a few fixed instantiations, and the names are compared with a reference only.',
  ['class.cpp', 'util.cpp', 'type.cpp', 'function.cpp'], [('template_specialization, class_name, python_class_name', 'class.cpp'), ('mangle_type_name, template_argument_to_string', 'util.cpp'), ('simplify_std_class_name', 'type.cpp'), ('binding_template_bases', 'class.cpp')])
p('C18', 'Policies, call guards, holders and class flags apply exactly as configured',
  'The configured return value policy is attached to exactly the functions of its kind (static or free versus member; pointer, l-value reference), the call guard to every function and method, the configured holder to every class (a raw pointer holder when the destructor is not public), module_local to the classes and enums directly in exactly the selected namespaces, and buffer_protocol and smart_holder to exactly the named classes. '
  'Without the setting nothing is attached beyond the documented default policy.',
  ['configurations', 'inputs'], 'all combinations of these settings with all function and class kinds',
  T + 'each setting appears in one configuration, mostly alone.',
  ['function.cpp', 'class.cpp', 'enum.cpp', 'config.cpp'], [('bind_function (maybe_return_policy, call guard)', 'function.cpp'), ('ClassBinder::bind (holder, annotations)', 'class.cpp'), ('Config::is_module_local_requested', 'config.cpp')])
p('C19', 'Custom binders replace or extend exactly what they name',
  'With +binder the named class (each instantiation of a named template) is handed to the user function once, with the namespace module and, for templates, the template arguments, and nothing else is generated for it; with +add_on_binder the user function is called once per such class, after its constructors, data members and functions. '
  'With +binder_for_namespace nothing else is generated for the entities of exactly that namespace and the user function is called exactly once; with +add_on_binder_for_namespace it is called exactly once before the first entity of that namespace.',
  ['configurations', 'inputs'], 'all inputs, size limits and combinations of custom binders',
  T + 'each kind appears once, with one file, so calling once per file instead of once per namespace would go unnoticed.',
  ['class.cpp', 'context.cpp'], [('ClassBinder::bind_with, ClassBinder::bind (add_on_binders)', 'class.cpp'), ('Context::generate (namespace_entrance)', 'context.cpp')])
p('C20', 'Config files mean what the documentation says, line by line',
  'A config file is a sequence of lines: empty lines and lines starting with # mean nothing, every other line must start with + or - followed by a known directive, a space and its argument, otherwise the run fails; line endings may be LF or CRLF and spaces inside arguments do not matter where a single name is expected. '
  'Each valid line has exactly its own effect, independent of position among lines of other kinds, a later setting of a single-valued option replacing an earlier one; options of the command line and of the file are combined.',
  ['configurations'], 'all config files: any sequence of valid and invalid lines',
  T + 'the config files are all valid and no error path is tested.',
  ['config.cpp', 'main.cpp'], [('Config::read, split_in_two', 'config.cpp'), ('BinderVisitor (options)', 'main.cpp')])
p('C21', 'Every generated file includes what it uses and compiles on its own',
  'Each generated source compiles by itself: it includes the header (as the input spelled it) of every declaration it binds and of every class and enum its signatures mention. '
  '+include lines appear in every file, include_for_class and include_for_namespace lines in the files that bind that class or namespace, includes matched by -include in none, and headers that were included with quotes are never emitted.',
  ['inputs', 'configurations'], 'all distributions of declarations over headers and all include directives',
  T + 'nearly all declarations of a test are in one header and the files are never compiled alone.',
  ['type.cpp', 'class.cpp', 'function.cpp', 'enum.cpp', 'context.cpp', 'binder.cpp'], [('add_relevant_includes (classes, functions, enums, types)', 'type.cpp'), ('relevant_include', 'type.cpp'), ('generate_include_directives', 'context.cpp'), ('IncludeSet', 'binder.cpp')])
p('C22', 'Documentation and printing follow the declarations',
  'The Doxygen comment of a class, enum, function or method becomes its docstring with its text, as Doxygen reads it, intact whatever characters it contains (quotes, backslashes, line breaks, non-ASCII), followed for callables by their C++ signature; a declaration without comment gets no foreign text. '
  'A class gets __str__ exactly when a global operator<< for it is declared and not skipped, and calling it gives what that operator prints.',
  ['inputs'], 'all comment texts and all operator<< declarations (any namespace, template or not)',
  T + 'comments contain plain text only, printing is never executed.',
  ['util.cpp', 'class.cpp', 'context.cpp', 'function.cpp'], [('generate_documentation_string_for_declaration', 'util.cpp'), ('ClassBinder::bind_repr', 'class.cpp'), ('Context::global_insertion_operator', 'context.cpp')])
p('C23', 'Layout, debugging and verbosity options never change what is bound',
  '--single-file, --flat, --max-file-size, --skip-line-number, --annotate-includes, --annotate-functions, --trace, -v and --suppress-errors change only the arrangement of files, comments and log output: the generated code still compiles and the module it makes is the same, registration by registration. '
  'With --trace a numbered line naming each bound entity is printed before it is registered.',
  ['configurations', 'inputs'], 'all inputs and all subsets of these options',
  T + 'most of these options are never passed, and never together.',
  ['context.cpp', 'class.cpp', 'function.cpp', 'util.cpp', 'main.cpp', 'type.cpp'], [('Context::generate, trace_line', 'context.cpp'), ('line_number', 'util.cpp'), ('bind_function / bind_constructor annotations', 'function.cpp')])
p('C24', 'Python builtins and STL types are bound exactly when configured',
  'A type that is a Python builtin (a fixed list, the configured holder, what +python_builtin adds, and with --include-pybind11-stl the STL containers; minus what -python_builtin removes, which always wins) is never bound although functions using it are; any other used type is. '
  '--include-pybind11-stl adds the pybind11 STL header to every generated file.',
  ['configurations', 'inputs'], 'all sets of python_builtin directives and the STL option over all inputs',
  T + 'two fixed configurations.',
  ['type.cpp', 'config.cpp', 'context.cpp', 'binder.cpp'], [('is_python_builtin', 'type.cpp'), ('Config::includes_code', 'config.cpp'), ('Binder::is_binded', 'binder.cpp')])
if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
