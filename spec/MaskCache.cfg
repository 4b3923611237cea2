SPECIFICATION Spec
VIEW View
INVARIANTS Refines Complete CacheRight
