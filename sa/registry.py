"""Which rule decides which property."""

COMMON_ASSUMPTIONS = [
    "Python semantics of the constructs the repository uses; no monkey-patching, eval or metaprogramming beyond what is parsed",
    "calls whose target the analysis keeps opaque do not rebind fields of the analysed objects",
]

RULES = {}


def rule(prop, module, func, floor, explain, level="other", assumptions=()):
    RULES[prop] = dict(module=module, func=func, floor=floor, explain=explain, level=level, assumptions=list(assumptions))


GVA = "gated value analysis (abstract interpretation over the AST with guard formulas, repository helpers inlined): "

rule("P01", "encoding", "p01", 30, GVA + "for every fixed-width integer method the bytes appended on normal exit and the exact guard of "
     "normal exit / refusal are computed and compared with width, byte order and range")
rule("P02", "encoding", "p02", 14, GVA + "prefix decision table of the slice length and agreement of the prefix with the content appended, per type case")
rule("P03", "encoding", "p03", 14, GVA + "type-case table of the generic add/add_all/add_array dispatch")

rule("P04", "values", "p04", 20, GVA + "every store of a currency/stake amount is found in the class (setters inlined) and its guard must imply the sign and precision check; "
     "acceptance and refusal conditions of the setter are compared with the documented ones")
rule("P05", "values", "p05", 20, GVA + "the value term of every operator is compared with the operation on both amounts in written order; stores to operands are rejected")
rule("P06", "values", "p06", 8, GVA + "decimal scale constants of integer form, JSON reader and precision limit agree; amount bytes are the minimal big-endian magnitude")
rule("P07", "values", "p07", 14, GVA + "every store of binary data must be guarded by the fixed-size check; declared sizes and array/slice choice per class")
rule("P08", "layout", "p08", 60, GVA + "the sequence of primitive encodings each building block writes is extracted per encoder and compared, under every guard combination, with the protocol's field table")

rule("P09", "txlayout", "p09", 30, GVA + "the ordered encoder content every transaction version produces is extracted and compared, under every guard combination, with the protocol's layout")
rule("P10", "txlayout", "p10", 25, GVA + "the ordered content hashed for a signature is extracted per version and compared with the protocol's coverage table; input indices and extra objects are traced through the hash factory")
rule("P11", "txlayout", "p11", 40, GVA + "identifier computations are compared with specifier + id input + index hashed by blake2b-256; ranges of the index compared as Boolean functions")
rule("P12", "fields", "p12", 60, GVA + "assignment followed by reading is interpreted as one program for every assignable attribute and compared with the documented conversion; the fields of its object each assignment sets are among those the attribute is held in (sa/writes.json)")
rule("P13", "jsonfmt", "p13", 60, GVA + "the dictionary every JSON writer produces is computed key by key with its presence condition and compared with the format table; every reader is interpreted on exactly that "
     "dictionary and each attribute must come back as the attribute written")
rule("P14", "address", "p14_all", 40, GVA + "reading, checksumming and rendering of addresses and public keys, the address of every condition kind and of a key, and the Merkle tree behind multi-signature "
     "addresses are compared with the protocol's reference term by term")
rule("P15", "names", "p15", 32, GVA + "setters and readers of names, host names, network addresses, amounts and fixed-size data are compared with reference behaviour; regular expressions are compared as "
     "languages by automaton equivalence")
rule("P16", "build", "p16", 55, GVA + "constructors of conditions, fulfillments and locks, the recipient mapping and the time texts behind locks are compared with reference behaviour case by case")

rule("P17", "signing", "p17", 100, GVA + "every producer of signature requests (address asked, hash generator closure, receiver, already-signed condition) and every receiver of signatures is compared with the reference; "
     "classes that request or receive signatures are enumerated")
rule("P18", "signing", "p18", 45, GVA + "the fulfilment predicate of every fulfillment kind, input, transaction and version's extra signatures is compared with the reference as a Boolean function")

rule("P19", "explorer", "p19", 120, GVA + "the retry loop over the explorers, the HTTP layer under it, the error mapping and every error class are compared with reference functions, guard by guard; what a try block covers is part of the guard")
rule("P20", "explorer", "p20", 110, GVA + "every reader of an explorer answer is compared with a reference: which checks guard the result, what is stored on which input or output, and which error each deviation gives")

rule("P21", "balance", "p21", 150, GVA + "the transition of an output between the four buckets, merging, the reported amounts, and the walk over an address history are compared with reference functions: final buckets, "
     "every recorded output with its confirmed/spent state, and every refusal")

rule("P22", "network", "p22", 85, GVA + "network names, numbers, fees and explorers, the construction of clients case by case, and the client and fee every wallet part uses are compared with reference functions")
rule("P23", "spend", "p23", 11, GVA + "the three functions that select outputs are compared with reference functions: every way out of the selection loops with what was collected and what it adds up to, the source and refund case "
     "analysis, and every refusal")
rule("P24", "spend", "p24", 80, GVA + "what is put in the transaction, signed, submitted, recorded and returned is compared with reference functions: every call with its operands, guard, enclosing loop and number of occurrences, "
     "and the order between completing, signing and submitting")
rule("P25", "keys", "p25", 75, GVA + "key derivation, the scan for used keys and key lookup are compared with reference functions; every value derived from the seed or a private key is followed through every function that touches one, "
     "and may reach only key derivation and signing; sources of randomness are compared with the operating system's generators")

rule("P26", "minting", "p26", 75, GVA + "signing of a given transaction and the two minting operations are compared with reference functions: parent outputs and mint conditions attached, every signature, the submission, the balance update "
     "and the reported result, with order")

rule("P27", "swap", "p27", 190, GVA + "every step of an atomic swap (initiate, participate, verify, redeem, refund, creating and claiming a contract) and the contract value are compared with reference functions: case analysis, every refusal "
     "with the contract it carries, and every call that builds, signs and submits the transaction, with order")

rule("P28", "bots", "p28", 110, GVA + "the three 3Bot operations, their funding, signing and submission, and the fees of every 3Bot transaction are compared with reference functions: content before funding, keys, activity checks, refusals, order")

rule("P29", "erc20", "p29", 55, GVA + "the ERC20 operations of the wallet, their funding, signing and submission, and the registration fee are compared with reference functions: which key or address is used in every case, every refusal, "
     "content before funding and signing")

rule("P30", "wellformed", "p30", 1000, "syntax-tree lint with scope resolution over every function: every name, attribute, call, format text, raised and caught exception is resolved against the program and the standard library; "
     "flow analysis of unset local variables; per concrete class, definite assignment of fields by the constructor before any method reads them, and no abstract method left open")

rule("P31", "effects", "p31", 1000, "interprocedural effect and alias analysis to a fixpoint: for every function the parameters, what is inside them, and the module- or class-level objects it changes on some path (attribute and element stores, in-place operators and methods, "
     "calls that do so); each must be one the function is there to change; defaults made once are neither changed nor kept; public operations set no other field of their object than the ones they are there to change (sa/writes.json)")

rule("P32", "reports", "p32", 18, GVA + "every operation that prints balances, chain reports, contracts, durations and times for people")

rule("P33", "secrets", "p33", 1900, "information-flow analysis to a fixpoint over the whole program: values made from the seed, the words, the private keys or a fresh swap secret are followed through assignments, calls, containers and objects; "
     "none may reach an error, output, a request, a transaction or a field or result other than the ones that hand out the secret on request")

rule("P34", "objects", "p34", 60, GVA + "every equality, inequality, hash, length and number conversion of the value types is compared with a reference over the parts that make up the value")

rule("P35", "times", "p35", 70, GVA + "every date, duration, period and hash helper is compared with a reference: which form is read how, in which order the forms are tried, units and bounds, local time or not, every refusal")

rule("P36", "times", "p36", 20, GVA + "every HTTP helper is compared with a reference: method, address, parameters, headers and data of the request, how its failure is reported, and that a download is written in full")


# shared building blocks: the obligations of another property's rule (by key prefix) that a property's own
# statement also depends on, decided again under the depending property
_WIRE = ("BinaryData.rivine", "BinaryData.sia", "ED25519Signature.rivine", "ED25519Signature.sia",
         "Currency.rivine", "Currency.sia", "Blockstake.rivine", "Blockstake.sia")
_LOOKUP = ("key.get", "spendable.sign", "spendable.unlockhash", "spendable.public_key")
ALSO = {
    "P02": [("P06", _WIRE), ("P07", _WIRE), ("P08", ("ConditionMultiSignature", "FulfillmentMultiSignature", "BotMonthsAndFlagsData"))],
    "P08": [("P06", _WIRE), ("P07", _WIRE)],
    "P09": [("P08", ("BotMonthsAndFlagsData", "BotName", "NetworkAddress", "CoinInput", "CoinOutput"))],
    "P10": [("P08", ("CoinOutput", "CoinInput", "BlockstakeOutput", "BlockstakeInput"))],
    "P11": [("P08", ("CoinOutput", "CoinInput", "BlockstakeOutput"))],
    "P13": [("P06", ("Currency.json", "Currency.from_json", "Blockstake.json")),
            ("P14", ("address.json", "address.text", "address.read", "key.json", "key.text", "key.read", "specifier."))],
    "P23": [("P21", ("available", "outputs_available", "outputs_unconfirmed_available")), ("P12", ("CoinInput.from_coin_output",))],
    "P24": [("P09", ("new.1",)), ("P25", _LOOKUP), ("P21", ("bucket.", "outputs_available", "outputs_unconfirmed_available")),
            ("P22", ("client.fee", "network.fee", "wallet.")), ("P17", ("request.", "CoinInput.", "single.", "tx.", "v1."))],
    "P21": [("P20", ("address", "parsed", "info"))],
    "P26": [("P09", ("new.128", "new.129")), ("P20", ("mint",)), ("P25", _LOOKUP), ("P17", ("request.", "CoinInput.", "single.", "multi.", "tx."))],
    "P27": [("P20", ("output", "coin_output", "info")), ("P25", _LOOKUP), ("P17", ("swap.", "FulfillmentAtomicSwap", "receiver.FulfillmentAtomicSwap"))],
    "P28": [("P09", ("new.144", "new.145", "new.146")), ("P20", ("threebot", "info")), ("P25", _LOOKUP), ("P17", ("v144.", "v145.", "v146.")), ("P22", ("client.fee", "network.fee"))],
    "P29": [("P09", ("new.208", "new.210")), ("P20", ("erc20",)), ("P25", _LOOKUP), ("P17", ("v210.", "v208.")), ("P22", ("client.fee", "network.fee"))],
}
