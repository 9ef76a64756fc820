prop('C01', 'Integers are converted exactly or reported as out of range',
 'For every JSON integer literal and every integer destination width and signedness, the stored integer equals the mathematical value of the literal if the destination type can represent it; otherwise a range error is reported. No literal wraps around, saturates or loses digits.',
 ['inputs'], 'all integer literals of any digits and length, with and without sign, for all 8 integer widths, as text and as bytes',
 'There are 10^20 literals per width; the tests sample the boundaries and some random literals. Each length and position has its own weight in the code.',
 ['internal/atoi/atoi.go'], [('per-length digit sums and overflow tests', 'internal/atoi/atoi.go: U8..I64')])
check('C01', 'abstract interpretation of the SSA form over symbolic digits (linear forms), case split on literal length',
 'Decides exactness and overflow for every literal up to the length bound in the evidence, for all instances of the parsers; assumes the argument is an integer literal and models Go integer arithmetic with wrap-around.')

prop('C02', 'Quoted numbers are accepted exactly if they follow the JSON number grammar',
 'A text read as a number is accepted if and only if all of it is a JSON number, and it is classified as an integer if and only if it has neither fraction nor exponent.',
 ['inputs'], 'all byte strings of any length',
 'The tests try a list of texts; the scanner is unrolled 8 times per section so that each position in a section is separate code.',
 ['internal/jsonnum/jsonnum.go'], [('unrolled scanner sections for integer, fraction and exponent', 'internal/jsonnum/jsonnum.go: ReadNumber')])
check('C02', 'abstract interpretation of the SSA form in product with the automaton of the JSON number grammar, fixpoint over loops',
 'Decides acceptance and classification for all byte strings of any length for both instances.')

prop('C03', 'String escape sequences are replaced by exactly what they denote',
 'For every valid JSON string the decoded text consists of the plain bytes as they are and the characters its escape sequences denote, in order, with surrogate pairs combined and lone surrogates replaced by U+FFFD. No byte is lost, repeated, or taken from elsewhere.',
 ['inputs'], 'all valid JSON string bodies of any length with any combination of escape sequences',
 'Positions of escape sequences relative to 8-byte batches, all 65536 code units and their pairs multiply; tests sample some.',
 ['internal/unescape/unescape.go'], [('batched search for escape sequences and re-encoding to UTF-8', 'internal/unescape/unescape.go: Valid')])
check('C03', 'abstract interpretation of the SSA form as a transducer compared with the specification of JSON escapes, fixpoint over loops',
 'Decides the output for all valid string bodies of any length for all 4 instances; assumes the tokenizer has accepted the string.')

prop('C04', 'The text parsers never read out of bounds or panic',
 'No integer literal, quoted text or valid string body makes reading a number or unescaping a string read outside the text or a lookup table, divide by zero, or panic.',
 ['inputs'], 'all inputs of the integer parsers (literals), the number reader (all byte strings) and the unescaper (valid string bodies)',
 'Reads are guarded by length tests that differ per unrolled position; tests reach a few of the lengths modulo 8.',
 ['internal/atoi/atoi.go', 'internal/jsonnum/jsonnum.go', 'internal/unescape/unescape.go'],
 [('length tests before indexed reads', 'internal/jsonnum/jsonnum.go, internal/unescape/unescape.go, internal/atoi/atoi.go')])
check('C04', 'abstract interpretation of the SSA form with every index, slice and panic as a bounds obligation',
 'All index and slice expressions reachable in the analysed functions are decided for all inputs of the stated kind.')

DEC = ['jscandec.go']
TECH = 'abstract interpretation of the SSA form of the main loop: every path of a transition as symbolic facts and effects (linear forms, uninterpreted calls, loop summaries), compared with a specification per token kind and destination type'
NOTE = ('Inductive: decides one transition from an arbitrary state of the main loop, for all token kinds, all destination types, arbitrary parents and both instances, so for inputs of any size and nesting. '
        'Assumes the contract of the tokenizer and that frames, tokens and destination are disjoint; what is not decided is listed as undecided in the evidence and never reported. ')

prop('C05', 'A value is accepted exactly if it fits the destination',
 'Decoding a syntactically valid JSON value fails exactly if some value in it does not fit the Go type it is decoded into: a JSON kind the type does not take, a number that is out of range or not an integer for an integer type, an invalid quoted value, a key that cannot be converted, an unknown field if these are disallowed, or an error of a user-provided unmarshaler. A value that fits is never rejected, one that does not is never silently accepted or skipped, and decoding never panics.',
 ['inputs', 'programs'], 'all JSON values and all supported destination types in any nesting',
 'Tests combine a few values with a few types; there are 11 token kinds, 59 destination types and any parent they can have.',
 DEC, [('type switch per token kind', 'jscandec.go: Decoder.Decode')])
check('C05', TECH, NOTE + 'Obligations: accept, panic.')

prop('C06', 'Errors name the offending value and are what happened',
 'If decoding fails, the index returned is the offset in the input of the value, key or element that does not fit (for the contents of an any: of the outermost value of it), and the error is the one documented for the reason, or the very error a user-provided unmarshaler returned. Syntax errors are returned as they are from the tokenizer with their index, a nil destination gives index 0 and the error for it without anything being decoded, and success gives -1 and nil.',
 ['inputs'], 'all JSON values, destination types and options for which decoding fails or succeeds',
 'Every failing branch of the code sets index and error on its own; the tests reach each with a few inputs.',
 DEC, [('error assignments before leaving the loop over the tokens', 'jscandec.go: Decoder.Decode')])
check('C06', TECH, NOTE + 'Obligations: errindex, errkind, return, nildest.')

prop('C07', 'Scalars are stored exactly as given',
 'A JSON boolean, string or number decoded into a bool, string, integer, float or raw number destination, or into an element or member of such a type, stores exactly the value of the text: the conversion is given all of the literal and nothing else, in the width of the destination, and its result is written in full at the place of the destination. Strings are unescaped exactly if they contain escape sequences.',
 ['inputs'], 'all scalars and scalar destination types including elements of slices of scalars and values of maps of strings',
 'Each pair of kind and width has its own copy of the code; the tests cover some values of some pairs.',
 DEC, [('conversion and store per scalar type', 'jscandec.go: Decoder.Decode')])
check('C07', TECH, NOTE + 'Obligation: value. The conversions themselves are decided by C01 to C03; strconv is trusted.')

prop('C08', 'Only memory of the destination is written',
 'While decoding, the only memory that is written to is that of the field, element or variable the current value belongs to, in its exact size, memory newly allocated for it, and the state of the decoder. Neither neighbouring fields or elements, nor the input, nor anything else is modified.',
 ['inputs', 'programs'], 'all JSON values and destination types',
 'Writes go through untyped pointers with computed offsets, neither the compiler nor the tests notice a write that is too wide or misplaced if the neighbour is overwritten later or not looked at.',
 DEC, [('writes through unsafe.Pointer computed from frame destination and offset', 'jscandec.go: Decoder.Decode')])
check('C08', TECH, NOTE + 'Obligations: address, effects.')

prop('C09', 'null has the documented effect on every destination type',
 'null sets pointers, maps, slices, interfaces and scalars to their zero value, leaves structs, arrays and values with text unmarshalers as they are, is passed to JSON unmarshalers of values that are not pointers, and is never an error. Decoding continues at the value after it.',
 ['inputs', 'programs'], 'null at every position, for all destination types in any nesting',
 'The tests decode null into some types, mostly as the outermost value.',
 DEC, [('transition for null tokens', 'jscandec.go: Decoder.Decode')])
check('C09', TECH, NOTE + 'All obligations for the token null.')

prop('C10', 'Every value is decoded once, in order, into the place it belongs to',
 'After a value the decoder continues with the value that follows it in the input, and the next element, key or member goes to the place that is due: the next element of an array or slice, the value of the key just read, the field selected, or what follows the enclosing value if that has ended. No value is decoded twice, none is left out, and decoding is over exactly if the outermost value is complete.',
 ['inputs', 'programs'], 'all JSON values in any nesting and all destination types that can contain one another',
 'What is due after a value depends on the chain of its parents, which the tests sample to small depths and few combinations.',
 DEC, [('stack of frames, end of value', 'jscandec.go: Decoder.Decode, label ON_VAL_END')])
check('C10', TECH, NOTE + 'Obligations: next, frame, offset, member, skip, element, begin, end, loops.')

prop('C11', 'Decoded values do not share memory with a mutable input',
 'When the input is a byte slice, no string, byte slice, map key, raw number, or interface value stored in the destination and no text passed to a user-provided unmarshaler shares memory with the input, so overwriting the input after decoding never changes what was decoded.',
 ['inputs', 'programs', 'histories'], 'all JSON values and destination types for byte slice inputs, and any later modification of the input',
 'The tests do not modify the input after decoding; whether memory is shared depends on the path (escaped or not, key or value, option) a string takes.',
 DEC + ['internal/unescape/unescape.go'], [('conversion of tokens to strings', 'jscandec.go: Decoder.Decode')])
check('C11', TECH, NOTE + 'Obligation: alias.')

prop('C12', 'Pointers are allocated, kept and cleared as needed',
 'A value decoded through a pointer that is nil is stored in newly allocated zeroed memory of the size and type of the pointee, which the pointer is set to; through a pointer that is not nil it is stored in the memory pointed to. null sets the innermost pointer it applies to to nil without touching the memory pointed to, and this is so for pointers at any place, to any type and to any depth.',
 ['inputs', 'programs', 'histories'], 'all pointer types in any nesting, nil or not, and all values',
 'Pointers combine with every other type, with recursion and with the state of the destination; the tests have a few of each.',
 DEC, [('pointer frames', 'jscandec.go: Decoder.Decode, cases of ExpectTypePtr and ExpectTypePtrRecur')])
check('C12', TECH, NOTE + 'All obligations for pointer destinations and obligation pointer for parents.')

prop('C13', 'Slices hold exactly the elements of the array',
 'A JSON array decoded into a slice gives a slice whose length is the number of elements, with each element decoded at its position; an empty array gives an empty slice that is not nil, null gives nil. Existing memory is used exactly if its capacity suffices, otherwise new zeroed memory for all elements is allocated, and no element is ever written past the capacity.',
 ['inputs', 'programs', 'histories'], 'all arrays of any length, all element types, all previous lengths and capacities of the destination',
 'Length, capacity and element type are independent, and each scalar element type has its own loop.',
 DEC, [('slice allocation and element loops per type', 'jscandec.go: Decoder.Decode')])
check('C13', TECH, NOTE + 'All obligations for slice destinations.')

prop('C14', 'Arrays take as many elements as they have, the rest is zeroed',
 'A JSON array decoded into a Go array stores the first elements in order; surplus JSON elements are ignored as a whole whatever they contain, and Go elements without a JSON counterpart are set to zero. Nothing past the array is written.',
 ['inputs', 'programs'], 'all JSON arrays and all Go array lengths and element types, in any nesting',
 'Lengths on either side and the kind of the surplus elements multiply; the tests have a few.',
 DEC, [('array frames with capacity and length', 'jscandec.go: Decoder.Decode')])
check('C14', TECH, NOTE + 'All obligations for array destinations.')

prop('C15', 'Maps get exactly one entry per distinct key of the object',
 'Each member of an object decoded into a map is stored under its key, unescaped and converted to the key type of the map, with the value decoded into zeroed memory, replacing a previous value of the key as a whole. Entries of an existing map whose keys do not occur are kept, a nil map is created only for an object, and a key that cannot be converted is an error.',
 ['inputs', 'programs', 'histories'], 'all objects, all supported key and value types, and all previous contents of the map',
 'Key type, value type, duplicates and previous contents are independent; maps of strings to strings have their own code.',
 DEC, [('map assignment through runtime functions', 'jscandec.go: Decoder.Decode')])
check('C15', TECH, NOTE + 'All obligations for map destinations.')

prop('C16', 'Members of objects are stored in the field they name',
 'A member of an object decoded into a struct is stored in the field whose name equals the key, or else in the first field whose name equals it under case folding. A member without such a field is ignored together with its whole value whatever that contains, or, if unknown fields are disallowed, is an error; all other fields remain unchanged.',
 ['inputs', 'programs', 'configurations'], 'all objects and struct types with any number and names of fields, all options',
 'The lookup is unrolled 4 times, the order of keys and the kind of the ignored value are arbitrary; the tests have few fields.',
 DEC, [('field lookup', 'jscandec.go: fieldFrameIndexByName'), ('key tokens', 'jscandec.go: Decoder.Decode')])
check('C16', TECH, NOTE + 'All obligations for struct destinations.')

prop('C17', 'Unmarshalers are called once with exactly the text of their value',
 'For a destination that has a JSON unmarshaler, the unmarshaler of that very destination is called exactly once with a copy of the complete text of the value, whatever its kind; one that has a text unmarshaler is called with the unescaped contents of a string. Its error ends decoding and is returned, and without an error decoding continues after the value.',
 ['inputs', 'programs'], 'all values, and all types with unmarshalers at any place in the destination',
 'Composite values, nesting in pointers, slices and maps, and errors combine; the tests have a few.',
 DEC, [('calls of UnmarshalJSON and UnmarshalText', 'jscandec.go: Decoder.Decode')])
check('C17', TECH, NOTE + 'All obligations for destinations with unmarshalers.')

prop('C18', 'Destinations of type any get the standard Go value',
 'A value decoded into an empty interface stores nil, a bool, a string, a float64, a slice or a map of such values for null, booleans, strings, numbers, arrays and objects, at any place in the destination, replacing what was there. Decoding continues after the value.',
 ['inputs', 'programs'], 'all JSON values and any place of an interface in the destination',
 'The tests decode some values into any.',
 DEC, [('conversion of any value', 'jscandec.go: decodeAny and the cases of ExpectTypeAny')])
check('C18', TECH, NOTE + 'All obligations for destinations of type any.')

prop('C19', 'Recursive types are decoded to any depth without mixing up levels',
 'For a struct type that contains itself through pointers, slices or maps, decoding a nested value begins with the state of the type free for it and, when the value is complete, continues in the enclosing value exactly where it was: the same destination, element, length and capacity, at any depth and for any order of recursive members.',
 ['inputs', 'programs'], 'all recursive types and all values for them, at any depth',
 'Depth, order of the members and several recursions in one type multiply; the tests have small examples.',
 DEC, [('enterRecursion, leaveRecursion, inRecursion', 'jscandec.go')])
check('C19', TECH, NOTE + 'Obligation: recursion, and all for recursive destinations. The bodies of the helper methods are decided against the contract the transitions use.')

prop('C20', 'A decoder is as good as new after every call',
 'Whether decoding succeeds, fails at any place, or a user-provided unmarshaler panics, afterwards the decoder holds no pointer to the destination and no state of the interrupted value: the next call gives the result and error it would with a new decoder.',
 ['histories', 'fault_sequences'], 'all sequences of calls on a decoder with any outcome, interrupted at any value',
 'What remains depends on where decoding is interrupted; the tests reuse decoders after some errors.',
 DEC, [('deferred reset', 'jscandec.go: Decoder.Decode')])
check('C20', TECH, NOTE + 'Obligations: begin, cleanup (for returns and for panics out of the tokenizer), state.')

prop('C21', 'Quoted values are accepted only if they hold a value of the type',
 'For a field with the string option, of boolean, string or numeric type, exactly the JSON strings whose contents are a complete value of that type are accepted and stored as that value; null is accepted as for the type without the option. Any other kind of value, an empty string, and contents with anything before or after the value are rejected.',
 ['inputs'], 'all JSON values for all types the option applies to',
 'Each type has its own branch with its own checks of the contents.',
 DEC + ['internal/jsonnum/jsonnum.go'], [('cases of the quoted types', 'jscandec.go: Decoder.Decode')])
check('C21', TECH, NOTE + 'All obligations for destinations with the string option.')

TYP = ['append_type_stack.go', 'jscandec.go']
prop('C22', 'Every destination type is decoded as what it is',
 'For any Go type, the decoder made for it decodes each part of the type by the rules of its kind: a JSON unmarshaler has priority over a text unmarshaler and both over the kind, every boolean, numeric, string, array, slice, map, struct, pointer and empty-interface type at any place gets its own decoding with its own size, length, offset and element type, every exported field is decoded under the name of its tag or its own name, and functions, channels, complex numbers and unsafe pointers are reported as errors wherever they are.',
 ['programs', 'configurations'], 'all Go types without infinite recursion through slices and maps alone, and all options of the constructor',
 'Types are unbounded compositions; the tests have some hundred, most kinds of them in few places.',
 TYP, [('type to frames', 'append_type_stack.go: appendTypeToStack, implementsUnmarshaler, setMapKeyType')])
check('C22', TECH, 'The function that compiles types is interpreted abstractly for an arbitrary reflect.Type; recursive calls are replaced by the contract which the same analysis proves of the function (induction over the type). Findings in the decoding of the frames are those of C05 to C21.')

prop('C23', 'Unmarshal and NewDecoder decode into the type they are given',
 'NewDecoder derives the decoder from its type parameter and the options it is given and returns exactly the error of a type that is not supported. Unmarshal decodes the whole input into exactly its argument as a new decoder with default options would, in which nothing is disallowed, and returns exactly its error; a nil destination is an error.',
 ['inputs', 'programs', 'configurations'], 'all types, inputs, destinations and options',
 'That nothing of a call is dropped or replaced on the way holds for all types or not at all; the tests compare a few errors.',
 TYP, [('constructor', 'jscandec.go: NewDecoder'), ('one-shot function', 'jscandec.go: Unmarshal'), ('parser functions', 'jscandec.go: Decoder.init')])
check('C23', TECH, 'Both functions are interpreted abstractly with symbolic arguments; the compilation of types and Decode are events whose arguments and results are compared with the specification.')

prop('C24', 'Decoders share no state with each other',
 'Whatever other decoders do or did, at any time and on any goroutine, the result of a call depends on its own decoder, arguments and the package as initialised only: package-level variables, everything reachable from them, and the options given to a call are never written after initialisation, and no memory reachable from them becomes part of a decoded value, so values decoded by different calls share no memory either.',
 ['schedules', 'histories'], 'all interleavings and sequences of calls on any decoders of any types',
 'Sharing shows only when two particular calls overlap or follow one another and touch the same place; the tests run one decoder at a time.',
 ['jscandec.go', 'append_type_stack.go', 'internal/unescape/unescape.go', 'internal/atoi/atoi.go', 'internal/jsonnum/jsonnum.go'],
 [('package-level variables and default options', 'jscandec.go: DefaultOptions, DefaultInitOptions, Err*, emptyStructAddr, zero*; internal/unescape: lut, lutReplace')])
check('C24', 'interprocedural effect and escape analysis over the SSA form: fixpoint of the values that may refer to memory reachable from package-level variables or options; every store, map update, append, copy and call is an obligation',
 'All functions and instances of the module, flow-insensitive and field-based for named struct types. Variables of the types of sync and sync/atomic may be written; writes with a lock held, and appends to whole package-level slices, are listed as undecided. Arguments passed by the caller (a tokenizer shared between decoders) are outside of the property.')

prop('C25', 'Decoded values never refer to memory that is moved or freed',
 'Everything the decoder keeps during a call or leaves in a destination stays valid for as long as it is referred to, whenever the garbage collector runs and stacks are moved: pointers are kept as pointers and not as integers, a destination on the stack of the caller is not hidden from the compiler, and what is stored in a map, slice or variable never lies in a temporary on the stack.',
 ['schedules', 'inputs', 'programs'], 'all points at which the garbage collector can run or a stack can grow, all inputs and destination types',
 'The memory has to be reused between two particular instructions for the loss to show; the tests run with little memory in use and destinations that happen to be on the heap.',
 ['jscandec.go', 'append_type_stack.go', 'internal/unescape/unescape.go'],
 [('pointer arithmetic through uintptr', 'jscandec.go: Decoder.Decode'), ('functions of the runtime declared as keeping no argument', 'jscandec.go: mapassign, mapassign_faststr, typedmemclr, noescape')])
check('C25', 'interprocedural dataflow analysis over the SSA form: taint of integers that are addresses, points-to sets of pointers made of integers and of arguments declared as not escaping, checked against an over-approximation of what the compiler knows to escape',
 'All functions and instances of the module, flow-insensitive. Calls which the compiler may inline are looked into by an estimate of their size. That memory is allocated for the type of what it holds is an obligation of C12, C13 and C15.')

prop('C26', 'A raw number gives its text and its value',
 'For every text held by a Number, String returns it unchanged, and Float64 and Int64 return what strconv.ParseFloat and strconv.ParseInt give for all of it in base 10 and 64 bits, with the error if the text has no such value.',
 ['inputs'], 'all texts',
 'The tests convert a few numbers; which texts a conversion takes, rounds or rejects depends on all of the text.',
 ['jscandec.go'], [('accessors of raw numbers', 'jscandec.go: Number.String, Number.Float64, Number.Int64')])
check('C26', TECH, 'The methods are interpreted abstractly for an arbitrary text; strconv is trusted. Conversions by other means than strconv are undecided unless they return no error where strconv gives one without having validated the text.')

prop('C27', 'Decoding always ends',
 'For every destination type that is supported, every input and all options, NewDecoder, Decode and Unmarshal return after a finite number of steps if the unmarshalers they call do: the main loop and every loop inside of it get past what they have read, no loop of the conversion of text, of the search for fields or of the compilation of types is repeated with everything it depends on unchanged.',
 ['inputs', 'programs', 'configurations'], 'all inputs, types and options',
 'A loop that fails to advance does so for one constellation of tokens or characters; for all others it ends, and no test can wait for all inputs.',
 DEC + ['append_type_stack.go', 'internal/unescape/unescape.go', 'internal/atoi/atoi.go', 'internal/jsonnum/jsonnum.go'],
 [('main loop over the tokens', 'jscandec.go: Decoder.Decode'), ('loops over elements, fields and skipped values', 'jscandec.go: Decoder.Decode, fieldFrameIndexByName, decodeAny'), ('loops over text', 'internal/jsonnum: ReadNumber; internal/unescape: Valid')])
check('C27', 'abstract interpretation of the SSA form with loop summaries; the difference of the state over an iteration decides whether it advances, and a ranking term (an index, a slice, the parents of a frame) is sought for every loop',
 'A violation is an iteration, possible under the contract of the tokenizer, that leaves the state unchanged or goes back in the tokens. That each transition of the main loop passes the value it decodes is an obligation of C10 too. Loops for which no ranking term is found are listed in the evidence (on the unchanged tree: the outer loop of unescape.Valid). Recursion over the nesting of values and types is part of N02 and C22.')

prop('C28', 'String inputs are referred to, not copied',
 'When the input is a string, every string Decode leaves in the destination, as a value, an element, a raw number, a map key or within a value of type any, refers to the bytes of the input itself, unless it is empty or has escape sequences, for which new memory is allocated.',
 ['inputs', 'programs'], 'all inputs and all destination types, wherever the string is',
 'A copy gives an equal string, so no comparison of decoded values shows it, and allocations are measured for a few inputs at most.',
 DEC + ['internal/unescape/unescape.go'], [('documentation of Decode', 'jscandec.go: Decoder.Decode'), ('strings without escape sequences', 'internal/unescape: Valid')])
check('C28', 'abstract interpretation of the SSA form: the memory every stored string refers to is a symbolic term that tells copies from the input',
 'All paths of the transitions and of decodeAny for string inputs, and of the instance of unescape.Valid from string to string. What is stored through reflection or by unmarshalers is not looked at.')

prop('C29', 'Memory allocated is proportional to the input',
 'The memory Decode allocates for a value depends on the value alone: it has room for a multiple of the value\'s own elements or of its own text at most, or its size is given by the destination type. It never depends on the length of the rest of the input, on where in the input the value is, on what is nested in its elements, or on a product of those, so that the memory for all values together is proportional to the length of the input.',
 ['inputs', 'programs'], 'all inputs and all destination types, wherever the value is',
 'Decoded values do not show how much memory was allocated for them, and inputs of tests are too small for a quadratic amount to matter.',
 DEC, [('allocation by number of elements', 'jscandec.go: Decoder.Decode, decodeAny'), ('allocation for text', 'internal/unescape: Valid')])
check('C29', 'abstract interpretation of the SSA form: the size of every allocation is a symbolic expression, which is compared with the elements and the text of the value the transition is for',
 'All paths of the transitions, of decodeAny and of the functions for text. Allocations by append, by reflection and within packages of others are not looked at; amounts up to 4096 are taken as constant.')

prop('N01', 'Decoding gives the value encoding/json gives',
 'For every input and destination both packages support, Unmarshal stores the same value as encoding/json.Unmarshal, and fails exactly if that fails.',
 ['inputs', 'programs'], 'all JSON texts and all Go types',
 'It is a relation to another program over all inputs.',
 DEC, [('drop-in replacement', 'jscandec.go: Unmarshal')])
na('N01', 'Equality with another program over all inputs is a relational property: no static argument in reach relates the two implementations. Its parts that can be stated about this code alone are C01 to C29.')

prop('N02', 'Deeply nested input does not exhaust memory or the stack',
 'For every input that fits into memory, decoding ends with a result or an error without exhausting the stack of the goroutine.',
 ['inputs'], 'all inputs of any nesting depth',
 'It depends on depths and limits that tests do not reach.',
 DEC, [('recursion over the nesting of a value', 'jscandec.go: decodeAny')])
na('N02', 'decodeAny and the compilation of types are recursive; how deep they go is bounded by the input and by the type only, and the limit by the runtime (1 GB of stack by default): a runtime quantity that the source does not bound.')
