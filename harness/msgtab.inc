// Message texts by id, as documented in uima/msg.h.
"332",
"[UIMA-LIBRARY]",
"%1",
"No detailed message available",
"Unexpected error",
"Out of memory",
"Resource key",
"Invalid iterator",
"Invalid document index",
"Illegal empty document reference",
"Invalid copy request",
"Illegal call to invalid conversion object",
"Target buffer overflow",
"Invalid character sequence",
"Invalid DBCS character sequence",
"Conversion not supported",
"Invalid annotator",
"Enumeration overflow",
"Windows exception %1",
"XML parse warning in %1 at line %2 character %3: %4",
"XML parse error in %1 at line %2 character %3 %4",
"XML parse fatal error in %1 at line %2 character %3: %4",
"Generic XML error",
"'%1' is not a valid ISO language identifier",
"Could not find annotator '%2'. '%1'",
"Could not find MakeAE procedure in '%1'",
"Error loading annotator '%2'. '%1'",
"Annotator %1 could not be initialized successfully",
"An unexpected Java exception occurred, error message: %1",
"A Java exception occurred. JNI return code: %1, error message: %2",
"A JNI call failed with return code %1",
"The Java VM could not be created (error code: %1)",
"The Java library could not be found or loaded",
"CAS definitions are incompatible with this AnalysisEngine",
"CAS object could not be converted to a TCAS (because it is not a TCAS)",
"Data directory '%1' does not exist",
"Working directory '%1' does not exist",
"Invalid FeatureStructure object",
"Invalid Type object",
"Invalid Feature object",
"Feature '%1' not appropriate for type '%2'",
"Incompatible range type '%2' for requested feature '%1'",
"Invalid Index object",
"Feature structure is not a string",
"Type system is already committed",
"Wrong type for feature structure",
"List is empty",
"List is circular",
"Feature structure is not of type list",
"Type system is not yet committed",
"Index with specified ID already exists",
"Index does not contain feature structures with the requested type",
"Index ID is invalid",
"Error while reading type system XML file",
"Wrong XML type system format near string '%1'",
"Invalid intro type name '%2' for feature '%1'",
"Invalid range type name '%2' for feature '%1'",
"Type '%1' already exists but has different parent type",
"Feature structure is not an array",
"FS Array index %1 out of bounds (array size is %2)",
"Function not yet implemented",
"Creation of type failed (parent type is not allowed to have new subtypes)",
"Creation of feature failed (introduction type is not allowd to have new features)",
"Type already exists",
"Feature already exists",
"Could not create feature structure of type '%1' (type is final)",
"A type with name '%1' does not exist in the type system",
"A feature with name '%1' does not exist in the type system",
"The string value '%1' is not allowed for the string sub type '%2'",
"There are conflicting allowed string values for type '%1'.",
"The specified type priority ('%1', '%2') raises a conflict.",
"There are incompatible index definitions for index with ID '%1'",
"Deserialized CAS corrupted (line %1)",
"SofaFS with name '%1' previously instantiated in the CAS",
"Index label '%1' occurs more than once",
"Type name '%1' is defined more than once, with different supertype names.",
"Type '%1' contains more than one feature named '%2'. The features have different range type names.",
"Tag '%1' is unknown. There is a mismatch between the constants in taespecifierbuilder.hpp and the XML Schema file '%2'.",
"Value '%1' of XML attribute '%2' in tag '%3' is not allowed.",
"The type '%1' used in the capability specification is not defined.",
"The feature '%1' used in the capability specification is not defined.",
"No value for the mandatory parameter '%1' was found",
"No value for the mandatory parameter '%2' was found in group '%1'",
"Configuration parameter '%1' is already defined in this specifier",
"A nameValuePair for parameter '%1' already exists",
"The group '%1' already exists",
"Allowed values are defined on type '%1' which is not a subtype of uima.cas.String",
"XInclusion of file '%1' is cyclic",
"The xi:include tag does not comply to standard (one href attribute)",
"Type '%1' contains more than one allowed value named '%2'.",
"Wrong type for configuration value",
"Configuration value is used as multi-value but defined as single value",
"Configuration value is used as single value but defined as multi-value",
"Extracting a configuration value",
"The configuration parameter '%1' is not defined",
"The configuration parameter '%1' is not defined in configuration group '%2'",
"No default configuration group defined",
"No configuration groups defined",
"Building TextAnalysisEngineSpecifier from file '%1'",
"Building TextAnalysisEngineSpecifier",
"Validating TextAnalysisEngineSpecifier from file '%1'",
"Validating TextAnalysisEngineSpecifier",
"Looking for configuration parameter '%1'",
"Looking for configuration parameter '%1' in group '%2'",
"Resolving xi:includes",
"Unknown context",
"Accessing/Dereferencing Iterator",
"Requesting document text at invalid index '%1'",
"Converting from CCSID %1 to CCSID %2",
"Requesting non-existent annotator '%1'",
"Enumerating supported languages",
"Allocating from memory pool: instance",
"Allocating from memory pool: document buffer",
"Allocating from memory pool: document misc.",
"Executing annotator '%1'",
"Calling annotator function '%1'",
"Working on '%1'",
"No resource found for language '%1'",
"Parsing XML or HTML document",
"Checking capability specification from configuration file '%1'",
"Checking index specification of configuration",
"Processing Java TAE from UIMACPP",
"Processing a CAS",
"Converting a CAS to a TCAS",
"Creating feature structure",
"Getting index with id %1",
"Creating set index with id %1",
"Creating ordered index with id %1",
"Checking index id %1",
"Adding feature structure to index",
"Finding feature structure in index",
"Removing feature structure from index",
"Introducing new feature '%1'",
"Adding new type '%1'",
"Setting string value in feature structure",
"Getting string value from feature structure",
"Getting array data from feature structure",
"Getting array size from feature structure",
"Getting value of a feature",
"Setting value of a feature",
"Initializing KeyFeatureComparator",
"Comparing feature structures",
"Getting the type of a feature structures",
"Creating list feature structure",
"Appending to a list",
"Prepending to a list",
"Getting list length",
"Getting first list element",
"Getting last list element",
"Setting first list element",
"Setting last list element",
"Checking if list is empty",
"Getting list head feature",
"Setting list head feature",
"Getting list tail feature",
"Setting list tail feature",
"Adding list value",
"Moving list to next element",
"Creating array feature structure",
"Getting feature structure from array",
"Setting feature structure in array",
"Creating string feature structure",
"Reading type system from xml file",
"Trying to create type '%1' as subtype of type '%2'",
"Trying to create feature '%1' on type '%2'",
"Creating iterator for index",
"Creating type system from configuration",
"Creating type priorities from configuration",
"Creating indexes from configuration",
"Deserializing CAS",
"Invalid content found in parser config expression: %1",
"executing parser config function: %1",
"loading parser config file: %1",
"parsing parser config tag: %1",
"parsing parser config line: %1",
"Error trying to access file '%1'",
"Error trying to open file '%1'",
"Error trying to write to file '%1'",
"Error trying to read from file '%1'",
"%1: %2",
"Message (%1)",
"Warning (%1)",
"Error (%1)",
"Fatal (%1)",
"User code",
"Could not allocate codepage-conversion buffer",
"Could not convert '%1' to a codepage string",
"Could not convert '%1' to a unicode string",
"Error unloading dictionaries",
"Dictionary not found",
"Dictionary not loadable (%1)",
"Lexical Analysis failed",
"Unexpected/Unknown POE return code %1",
"Lexical Analysis aborted by POE exception",
"Trying to open abbreviation dictionary '%1'",
"Trying to open stopword dictionary '%1'",
"Trying to open addenda dictionary '%1'",
"Trying to open main dictionary '%1'",
"Using dictionary search path '%1'",
"Calling POE lexical analysis function",
"Calling POE dictionary lookup (morph-id) function",
"Trying to allocate charclass table",
"Thesaurus path '%1' not found",
"Thesaurus file '%1' not found",
"Failed creating the Path-Location ?????.",
"No filename specification for thesaurus",
"No path specification for thesaurus",
"Thesaurus path not specified in Configuration.",
"Thesaurus file not specified in Configuration.",
"Relation '%1' not found in Thesaurus",
"Specified depth greater than MAX_DEPTH.",
"Specified MaxCount greater than MAX_MAXCOUNT.",
"No further error information available (ThGetLastError failed).",
"%1 failed. ErrorCode from the Thesaurus: %2",
"Invalid Option for Thesaurus Path.",
"Invalid Option for Thesaurus File.",
"No valid relation name specified.",
"No valid depth specified.",
"No valid MaxCount specified.",
"XML parsing of rule file %1 failed",
"Initializing categorization annotator",
"Trying to load word frequency table for language %1",
"Trying to save word frequency table for language %1",
"doxtract processing in function %1",
"doxtract Log file is not accessible.",
"Path/file name too long: %1.",
"Error in configuration file: Name of doxtract authority file is too long.",
"Error in configuration file: Name of doxtract stopword file is too long.",
"Unable to open doxtract POE dictionary.",
"Unable to open doxtract stop word file.",
"Unable to open doxtract authority file.",
"Set LOGGING_DIRECTORY in doxtract configuration to see details.",
"Original component error message: (%1) %2 [%3]",
"Original component error message: (%1) %2 %3 [%4]",
"Trying to load language detection resource file",
"Cannot have any more than %1 categories",
"Failed to create working dictionary",
"Insert into new working dictionary failed",
"Failed to create master dictionary",
"Failed to create new master dictionary",
"Too many components for master dictionary",
"PREFIXES %1 not found",
"String |%1| not found in master dict",
"Saving master dictionary",
"Opening master dictionary",
"Trying to open master dictionary",
"Master min word length unspecified",
"Master max word length unspecified",
"Master n-gram length unspecified",
"Wrong master min word length of %1",
"Wrong master max word length of %1",
"Wrong master n-gram length of %1",
"Already using prefix |%1|",
"FEAT_TOTAL for %1 not found",
"FEAT_SS for %1 not found",
"Dictionary already balanced",
"Missing entry |%1| in master dictionary",
"Missing entry |%1| in temporary dictionary",
"Prefix too long",
"Blancing not (yet) supported",
"Blancing and training cannot be run simultaneously",
"Missing output dictionary name",
"For balancing new dictionary name must differ from current one",
"Parameter value out of range",
"Setting MaxCharsToExamine",
"Setting MaxTopLanguages",
"Error occured in annotator Doxtract-JP",
"executing Doxtract-JP function %1",
"Error occured in annotator regex",
"Errror %1 in regular expression %2",
"No regex rules found",
"Invalid content found in regex rule: %1",
"Unknown UIMACPP type encountered: %1",
"Unknown UIMACPP feature encountered: %1",
"Invalid UIMACPP feature encountered: %1 (must be of type int, float or string)",
"regex typesystem file not found: %1",
"executing regex function: %1",
"loading regex rule file: %1",
"parsing regex rule:\n%1",
"parsing regex rule line: %1",
"setting feature to new value",
"Parsing XML totem file at line %1 in column %2",
"Found unknown XML tag",
"Unknown symbol table name",
"Symbol table already filled",
"Instructions already filled",
"Wrong argument type for instruction",
"Invalid input annotation type",
"Wrong argument number for instruction",
"Unknown instruction",
"Unsupported XML attribute in file %1. %2. ",
"Creating APR pool for class %1",
"APR error: %1",
"Calling APR function: %1",
"Constructing class %1",
"?",
"?",
"?",
"?",
"?",
"?",
"?",
"?",
"?",
"?",
"?",
"?",
"?",
"?",
"?",
"?",
"?",
"Incompatible UIMA Java version '%1'. Supported versions: '%2'",
"CASPool not created.",
"Error accessing Sofa Data Stream.",
"Invalid format Sofa URI %1.",
"Scheme handler for the '%1' scheme not registered. Cannot access '%2'.",
"Could not register or load '%1' scheme handler for '%2'.",
"Could not find procedure '%1' in schema handler '%2' for sofa uri '%3'.",
"Open sofa data stream failed for sofa uri '%1' using schema handler '%2'.",
"%1 failed. SofaDataStream not opened for sofa uri '%2'.",
"Open failed. Unsupported local sofa data type '%1'.",
"Open failed. Local sofa data not set '%1'.",
"Read failed. Invalid element size '%1' for local sofa data type '%2'.",
"Seek failed. Invalid seek origin '%1'.",
"Duplicate registration '%1' for uri scheme '%2'.",
"Codepage conversion error.  ICU error code '%1' from '%2'.",
"No Sofa named '%1' found in the CAS.",
"Invalid method: Base CAS has no Sofa.",
"There are no free CASs in the CASPool. ",
"Invalid call to next(). ",
"[UIMA-LIBRARY]",
