#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the statements are kept)."""
import json
I='src/footprints/__init__.py'; C='src/footprints/collectors.py'; A='src/footprints/access.py'
P='src/footprints/priorities.py'; R='src/footprints/reporting.py'; S='src/footprints/stdtypes.py'
U='src/footprints/util.py'; G='src/footprints/config.py'; X='src/footprints/proxies.py'; D='src/footprints/doc.py'
def p(id,title,st,over,q,why,files,mech,obs,state=()):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=obs,hook_needed=None))
L=[
p('P01','Accepted resolutions conform to the declared footprint',
 "Whenever a description is accepted by a footprint (the class is reported eligible, or an object is built), every declared attribute holds a value that has been remapped to the end of its remap chain, is an instance of the declared type (a subclass of it for class-valued attributes) or was converted to it with the declared arguments, belongs to the authorised values if some are declared and equals none of the excluded values. "
 "A mandatory attribute without a value, a value (given, or default) that cannot be converted or is out of range, and the value None or 'None' lead to a rejection: not eligible when several classes are compared, a fatal footprint error when an object is instantiated directly. "
 "An optional attribute without a value nor default reads as None and is exempt from the type and range checks.",
 ['inputs','configurations'],'every footprint definition, every description, defaults and extras, in fatal and non fatal modes',
 'the tests resolve about a dozen fixed footprints with a handful of values; the interplay of remap, conversion, values, outcast, isclass, defaults and fast exit is a product they only sample',
 [I],[('Footprint.resolve','%s:Footprint.resolve'%I),('Footprint.in_values','%s:Footprint.in_values'%I),('footprint_couldbe','%s:FootprintBase.footprint_couldbe'%I),('FootprintBase.__init__','%s:FootprintBase.__init__'%I)],
 ['Footprint.resolve','FootprintBase.footprint_couldbe','FootprintBase(...)']),
p('P02','Where the value of each attribute comes from',
 "For each declared attribute the value to be resolved is the one given in the description under the attribute's own name, else under one of its aliases, else the one of the current setup defaults, else the declared default of an optional attribute (evaluated if it is a footprint value object); a None given for an optional attribute counts as not given. "
 "The reported set of input attributes is exactly the set of valued attributes that came from the description, an alias or the setup defaults. "
 "A resolution yields exactly the declared attributes (never another key of the description) and modifies neither the description nor the setup defaults.",
 ['inputs','configurations'],'every footprint definition, description and setup defaults',
 'tests check a few precedence pairs on fixed footprints; the precedence must hold for every combination of sources and every number of attributes and aliases',
 [I,G],[('Footprint._firstguess','%s:Footprint._firstguess'%I),('Footprint.resolve','%s:Footprint.resolve'%I),('ResolveCache','%s:ResolveCache'%C)],
 ['Footprint.resolve','FootprintBase.footprint_couldbe']),
p('P03','Bracketed references are substituted exactly, or refused',
 "In an accepted resolution each reference such as [name], [name:attr], [name:method], [name#fallback] or [name%format] found in a value has been replaced, literally and in whatever order the attributes are declared, by the (formatted) final value of that attribute, or else by the extra value of that name (the other keys of the description, the attributes of footprint objects given in the description, the setup extras, the setup defaults), or else by the fallback. "
 "A reference to a name found nowhere and without fallback raises the unreachable attribute error. "
 "A resolution always terminates: cyclic references raise the maximum iteration error and any acyclic set of references is resolved, whatever its depth.",
 ['inputs','configurations'],'every set of attribute values with references between them, in every declaration order, every extra value',
 'tests use a few templates in one declaration order; cycles, long chains and values with special characters are never met',
 [I],[('Footprint._replacement','%s:Footprint._replacement'%I),('Footprint._process_replm','%s:Footprint._process_replm'%I),('Footprint._findextras','%s:Footprint._findextras'%I),('Footprint._addextras','%s:Footprint._addextras'%I)],
 ['Footprint.resolve','FootprintBase(...)']),
p('P04','A class is eligible iff its resolution is complete and every only clause holds',
 "A class is reported eligible for a description exactly when its resolution is complete (no attribute left without a value) and each of its only clauses holds: the actual value (a resolved attribute, else a setup default) equals, or is matched by, at least one of the listed items; for after_x it is greater or equal, and for before_x strictly lower, than at least one of them. "
 "A clause about a value found nowhere rejects the class. "
 "The answer, including the resolved values, does not depend on whether a report is requested.",
 ['inputs','configurations'],'every footprint with only clauses (scalars, strings, sequences, compiled regular expressions, bounds), every description',
 'tests exercise a few only clauses on one class; conjunction, disjunction, bounds and missing values are a product they only sample',
 [I],[('Footprint.checkonly','%s:Footprint.checkonly'%I),('footprint_couldbe','%s:FootprintBase.footprint_couldbe'%I)],
 ['FootprintBase.footprint_couldbe','Collector.find_all']),
p('P05','Selection: all the eligible classes, the best ranked one, or none',
 "The search for all candidates returns each registered class that is eligible for the description exactly once, with its resolved values and input attributes, and nothing else. "
 "The best choice is an instance of an eligible class with the highest priority level and, among those, the largest number of attributes given as input, holding the values resolved for that class; the any choice is an instance of some eligible class. "
 "When no class is eligible both return None, whatever the reporting mode.",
 ['inputs','configurations'],'every set of registered classes (priorities, footprints), every description, every reporting mode, every registration order',
 'tests use one collection of about ten classes; ranking must hold for every set of candidates and every iteration order of the catalog',
 [C,I],[('Collector.find_all','%s:Collector.find_all'%C),('Collector.find_best','%s:Collector.find_best'%C),('Collector.find_any','%s:Collector.find_any'%C),('footprint_weight','%s:FootprintBase.footprint_weight'%I)],
 ['Collector.find_all','Collector.find_best','Collector.find_any','footprints.load']),
p('P06','The fast track never changes the outcome of a search',
 "For every set of registered classes, every choice of fast track attributes and every description, a search through the collector returns the same candidates, values and inputs as with the fast track switched off. "
 "This holds after any sequence of registrations, removals, clearings and changes of the fast track attributes.",
 ['inputs','histories','configurations'],'every history of add / discard / pop / clear / fasttrack settings, then every description',
 'tests compare one collection for a few descriptions; the index is an over-approximation that must stay sound along every history',
 [C],[('_upd_fasttrack_index','%s:Collector._upd_fasttrack_index'%C),('_fasttrack_subsetting','%s:Collector._fasttrack_subsetting'%C),('_upd_fasttrack_delete','%s:Collector._upd_fasttrack_delete'%C)],
 ['Collector.find_all','Collector.find_best'],[('_fasttrack_index','class sets by attribute value','%s:Collector'%C),('_fasttrack_trap','classes that any value could match','%s:Collector'%C)]),
p('P07','Pickup consumes exactly the attributes of the chosen class',
 "Picking up a description stores the selected object (or None) under the collector's tag, removes the keys that are attributes or aliases of the selected object's footprint and the keys starting with an underscore, and leaves every other key and value untouched; nothing but the underscored keys is removed when no class is found. "
 "An object already present under the tag is kept as it is (and no class is selected), its footprint keys being removed likewise. "
 "Loading returns exactly the object that a pickup of the same description stores.",
 ['inputs','configurations'],'every description, every collection of classes, tag already defined or not',
 'tests look at a few descriptions; which keys are removed and which are kept must hold for all key sets',
 [C,I],[('Collector.pickup_and_cache','%s:Collector.pickup_and_cache'%C),('Collector.load','%s:Collector.load'%C),('footprint_cleanup','%s:FootprintBase.footprint_cleanup'%I),('Footprint.track','%s:Footprint.track'%I)],
 ['footprints.pickup','footprints.load','Collector.pickup']),
p('P08','Priority levels form a strict order that only explicit moves change',
 "Along any sequence of operations a priority set never holds twice the same level, and each operation has exactly its documented effect: extending appends (or moves) levels at the top in the given order, an insertion places a level immediately after or before its reference, a rerank shifts one level by the requested amount within the bounds, a removal deletes only that level, and the relative order of all the other levels never changes. "
 "An operation relative to an unknown level (or to itself) fails and leaves the set unchanged; freezing records the current order under a name (never the default one) and restoring brings it back exactly, whatever happened in between. "
 "Two levels compare as their positions do, names being case insensitive.",
 ['histories','inputs'],'every finite history of operations on a priority set with any level names',
 'tests run a few fixed sequences on small sets',
 [P],[('PrioritySet','%s:PrioritySet'%P),('PriorityLevel','%s:PriorityLevel'%P),('set_before / set_after','%s:set_before'%P)],
 ['PrioritySet()','PriorityLevel comparison','priorities.set_before','priorities.set_after'],[('_levels','ordered names','%s:PrioritySet'%P),('_freeze','recorded orders','%s:PrioritySet'%P)]),
p('P09','Footprints compose by overriding, without altering their sources',
 "A footprint built from several definitions (base classes' footprints, abstract footprints, dictionaries, lists of dictionaries, keywords) holds the union of their attributes, only clauses and priorities, where for each attribute characteristic the last definition that sets it wins (own definition over base classes, first base class over the next ones, dictionary characteristics being merged by key). "
 "Every attribute is normalised: missing characteristics get their documented default, values, outcasts and aliases become sets whose values and outcasts are all of the declared type, and the documentation order is clamped to [-100, 100]. "
 "The decorators of a decorative footprint are those of its sources, in order, then its own. The definitions passed in and the footprints of the base classes are never modified.",
 ['inputs','programs'],'every sequence of definitions and class hierarchies',
 'tests merge a few fixed definitions; aliasing between a definition and its sources shows only for particular shapes and sizes',
 [I,U],[('Footprint.__init__','%s:Footprint.__init__'%I),('FootprintBaseMeta.__new__','%s:FootprintBaseMeta.__new__'%I),('list2dict','%s:list2dict'%U)],
 ['Footprint(...)','class definition','cls.footprint_retrieve()']),
p('P10','Attribute access follows the declared mode',
 "A read-only attribute can be neither written nor deleted, a read-write one can be written but not deleted, and only a read-write-delete one can be deleted; a refused operation raises an attribute error and changes nothing. "
 "A write stores the value converted to the declared type if it is authorised, else raises a value error and leaves the current value unchanged, and a weak attribute never keeps its value alive. "
 "An operation on an attribute of one object never affects another attribute or another object, of the same class or not.",
 ['inputs','histories'],'every attribute definition and access mode, every sequence of reads, writes and deletions on several objects',
 'the tests use three attributes of one object',
 [A,I],[('descriptors','%s:FootprintAttrDescriptor'%A),('footprint_setattr','%s:FootprintBase.footprint_setattr'%I),('footprint_delattr','%s:FootprintBase.footprint_delattr'%I),('footprint_getattr','%s:FootprintBase.footprint_getattr'%I)],
 ['obj.attr','setattr','delattr']),
p('P11','Clones, exports, copies and pickles are faithful and independent',
 "A clone is a new object of the same class whose attributes have the values of the original, but for those given as extra, and (when full) its public instance variables; a deep copy or an unpickled object has equal attributes, unset ones included. An almost clone made by a collector is what loading the attributes of the original, updated by the extra ones, gives. "
 "The exported and the dictionary views hold exactly the attributes of the object with their current values (exported through their own export methods when there are some). "
 "Modifying a dictionary or exported view, a clone, a deep copy or an unpickled object never changes the original object's attributes.",
 ['inputs'],'every object of every footprint class, every extra dictionary',
 'tests clone one or two objects with simple values',
 [I],[('footprint_clone','%s:FootprintBase.footprint_clone'%I),('footprint_as_dict','%s:FootprintBase.footprint_as_dict'%I),('footprint_export','%s:FootprintBase.footprint_export'%I),('__getstate__/__setstate__','%s:FootprintBase.__getstate__'%I)],
 ['footprint_clone','footprint_as_dict','footprint_as_shallow_dict','footprint_export','copy.deepcopy','pickle']),
p('P12','Instances are tracked, reused and searched consistently',
 "Each alive object built from a registered class (classes being identified by their full name) is known to the collectors of that class, and only them, from its creation on. "
 "Asking for a default object returns an alive tracked object whose class is reusable and whose attributes equal those that its footprint resolves from the request if there is one, else what loading the request would give. "
 "Searching by attribute values returns exactly the tracked objects that have all the given attributes with equal values.",
 ['histories','inputs'],'every history of creations and deletions of objects, every request',
 'tests create a few objects of fixed classes',
 [C,I],[('Collector.default','%s:Collector.default'%C),('Collector.grep','%s:Collector.grep'%C),('newobsitem','%s:Collector.newobsitem'%C),('footprint_compatible','%s:FootprintBase.footprint_compatible'%I),('footprint_riseup','%s:FootprintBase.footprint_riseup'%I)],
 ['footprints.default','footprints.grep','Collector.instances']),
p('P13','Classes are registered, filtered and discarded exactly as declared',
 "Defining a class registers it in each of its declared collectors, as selectable unless it is abstract (an abstract class is never selected nor instantiated); a definition with an attribute or alias named as a collector tag, or an explicit non abstract class without mandatory attribute, is refused with an invalid definition error. "
 "Filters by package prefix, flag method or priority level (higher meaning greater or equal, lower meaning strictly below) return exactly the matching registered classes, the corresponding discards remove exactly those, and collectors are found under their tag whatever its case or final s. "
 "Resetting the priority of a package changes exactly the classes of that package.",
 ['programs','histories'],'every set of class definitions, every prefix, flag and level, every order of registrations and discards',
 'tests register one fixed set of classes',
 [I,C],[('FootprintBaseMeta.__new__','%s:FootprintBaseMeta.__new__'%I),('Collector.filter_*','%s:Collector.filter_package'%C),('Collector.discard_*','%s:Collector.discard_package'%C),('reset_package_level','%s:Collector.reset_package_level'%C),('Collector.tag_clean','%s:Collector.tag_clean'%C)],
 ['class definition','Collector.filter_*','Collector.discard_*','footprints.reset_package_priority']),
p('P14','Expansion yields exactly the product of the expandable values',
 "Expanding a description yields one description per combination of the expandable values (elements of lists, tuples and sets, items of comma separated strings, integers of inclusive ranges), each with the chosen value for these keys, the entry selected by the value of the matching key for each matching dictionary, and all the other keys unchanged. "
 "Combinations come in the order of the listed values, key after key, and index_expansion numbers them from 1 to n. A description that would need more than 24 successive expansions is refused by a memory error. "
 "Values of the footprints' own container types are never expanded and neither the original description nor its values are modified.",
 ['inputs'],'every description with any number of expandable values of any size, nested or not',
 'tests and doctests expand some twenty fixed descriptions',
 [U],[('expand','%s:expand'%U),('inplace','%s:inplace'%U)],
 ['footprints.util.expand','footprints.util.inplace']),
p('P15','Glob expansion selects the matching files and binds their parts',
 "Expanding a value with glob expressions yields exactly the existing files that match the whole pattern (each named part matching its regular expression), in sorted order, with the references [glob:name] of the other values replaced by the part matched for that file. "
 "Brackets nested or escaped inside a named part belong to that part; a duplicated name, an unbalanced bracket or an invalid regular expression raises a value error.",
 ['inputs','configurations'],'every pattern and every set of files',
 'tests use one directory of five files and a few patterns',
 [U],[('_parse_globs','%s:_parse_globs'%U),('expand','%s:expand'%U)],
 ['footprints.util.expand']),
p('P16','Footprint standard types are hashable containers equal to their builtin peers',
 "The footprints' dictionary, list, set, string and tuple types hold the same content and compare equal to the builtin they derive from, and two equal objects of the same type have the same hash value whatever the order in which they were built. "
 "Their items are independent copies of their content (in order for lists and tuples) and the exported form of a set holds exactly its elements, sorted when possible. "
 "A regular expression object behaves as its compiled pattern, is exported as its pattern and flags, and survives a deep copy.",
 ['inputs','histories'],'every content and every construction order',
 'tests build one small object of each type; hash consistency depends on insertion order, collisions and table history',
 [S],[('FPDict.__hash__','%s:FPDict'%S),('FPSet','%s:FPSet'%S),('FPList','%s:FPList'%S),('FPTuple','%s:FPTuple'%S),('FPRegex','%s:FPRegex'%S)],
 ['hash','==','items','footprint_export']),
p('P17','Reports tell why each candidate was rejected',
 "After a search that finds nothing, the last report of the collector has one entry per evaluated class, and the entry of a rejected class names, with the reason, each attribute that was missing or refused (or the only clause that failed); the why-not query returns exactly the rejected classes whose name matches the pattern. "
 "The log keeps its entries in order and at most the configured number of them, clearing empties it, reducing keeps only the last one, and its dictionary and XML views always reflect the current entries. "
 "Reporting never changes the outcome of a search.",
 ['inputs','histories'],'every collection and description, every history of log commands',
 'tests look at a few reports of a fixed collection',
 [R,C],[('FootprintLog','%s:FootprintLog'%R),('FootprintLogClass','%s:FootprintLogClass'%R),('report calls','%s:Footprint.resolve'%I),('Collector.report_whynot','%s:Collector.report_whynot'%C)],
 ['Collector.report_log','Collector.report_last','Collector.report_whynot']),
p('P18','Setup defaults and proxies give access to the actual collectors',
 "Setup defaults are looked up whatever the case of their names, replacing them affects every later resolution and forgets the former ones, and the setup's dictionary view and altered copies describe exactly its settings, the original being unchanged by an altered copy's creation. "
 "A proxy gives the collector itself under a tag followed by s and its load function under the bare tag, for every existing collector and for nothing else; objects added to the setup's proxies get both for every collector, including those created later. "
 "The proxy's lists and tests of existence describe exactly the existing collectors and their alive instances.",
 ['histories','configurations'],'every history of collector creations, proxies and defaults settings',
 'tests look at a few fixed names',
 [G,X],[('FootprintSetup','%s:FootprintSetup'%G),('add2proxies','%s:add2proxies'%G),('FootprintProxy','%s:FootprintProxy'%X)],
 ['footprints.setup','footprints.proxy']),
p('P19','Generated documentation is complete and ordered',
 "The generated documentation of a footprint has exactly one entry per declared attribute, with its type, access mode and, when declared, its information, default, values and outcasts, followed by all the only clauses and all the aliases. "
 "Attributes are ordered by visibility level, then by decreasing documentation order, then by name.",
 ['inputs'],'every footprint definition',
 'tests look at one footprint',
 [D],[('_formating_sphinx_v1','%s:_formating_sphinx_v1'%D)],
 ['footprints.doc.format_docstring']),
p('P20','Queries describe exactly the registered classes',
 "What a class or a footprint says of its attributes (mandatory, optional, authorised and excluded values, access mode, keys and aliases, priority level, names) is exactly what its definition declares, and the containers returned can be modified without any effect on the definition. "
 "The attribute map of a collector has, for each attribute (restricted to the given name or names), one entry per registered class that declares it, filed with those of the same name and optional character and holding the name, module, values and outcasts of that class; it extends the map it is given; its printed forms list exactly its content. "
 "The values known for an attribute are the sorted union of the values declared by the registered classes. The module functions that load, pick up, search or list do so in the collector of the given tag, or in all the collectors, and only there. No query modifies a class.",
 ['programs','inputs'],'every set of class definitions in several collectors, every restriction and every tag',
 'tests print one map and read a few values of a fixed collection',
 [I,C],[('Footprint queries','%s:Footprint.mandatory'%I),('FootprintBase queries','%s:FootprintBase.footprint_values'%I),('Collector.build_attrmap','%s:Collector.build_attrmap'%C),('Collector.get_values','%s:Collector.get_values'%C),('collected_classes','%s:collected_classes'%I)],
 ['FootprintBase.footprint_*','Collector.build_attrmap','Collector.get_values','footprints.collected_classes']),
]
with open('/verif/properties.jsonl','w') as f:
    for x in L: f.write(json.dumps(x)+'\n')
for x in L:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(L))
