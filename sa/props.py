"""Property texts (source of properties.jsonl)."""

PROPS = []
NOT_APPLICABLE = {}


def P(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": why, "anchors": a})


RIV = "tfchain/encoders/rivine.py"
SIA = "tfchain/encoders/sia.py"

P("P01", "Fixed-width integers are exact or refused",
  "Every fixed-width integer (and single byte) written by either binary encoder occupies exactly its stated number of bytes, little-endian. "
  "A value that is negative or does not fit that width is refused with the encoder's range error; it is never truncated, wrapped or written in another width, "
  "and every value that does fit is accepted.",
  ["inputs"], "every integer value passed to every fixed-width encoding method of the Rivine and Sia encoders",
  "the boundary lies at a different value for each width and a test samples a few integers per width",
  [RIV, SIA], [("range check and little-endian rendering", RIV + ":_check_int_type, add_int8..add_int64, add_byte"), ("add_int, add_byte", SIA)])

P("P02", "Length prefixes count exactly what follows",
  "Every variable-length value is preceded by exactly one length that counts what follows it: bytes for text and binary data, elements for sequences. "
  "In the Rivine format the length uses the smallest of the 1, 2, 3 or 4 byte tagged forms (limits 2^7, 2^14, 2^21, 2^29) and longer lengths are refused; "
  "in the Sia format it is an 8-byte integer.",
  ["inputs"], "every text, binary and sequence value of any length, including non-ASCII text",
  "prefix forms change at lengths tests do not reach and content outside ASCII is never sampled",
  [RIV, SIA], [("slice length forms", RIV + ":_add_slice_length"), ("slice writers", RIV + ":add_slice; " + SIA + ":add_slice")])

P("P03", "Generic encoding picks the form by the value's type",
  "Adding a value to an encoder writes an object that defines its own encoding through that encoding, a boolean as one byte 0/1, an integer in 8 bytes, and text, "
  "binary data or a sequence as a length-prefixed slice; anything else is refused. Arrays are the same content without a prefix, and adding several values "
  "adds each of them once, in order.",
  ["inputs"], "every value of every supported or unsupported type, in any nesting",
  "type cases overlap (a boolean is an integer, an object may also be iterable), so the order of the cases matters for values tests do not combine",
  [RIV, SIA], [("add / add_array / add_all", RIV + "; " + SIA)])

PRIM = "tfchain/types/PrimitiveTypes.py"
ERRS = "tfchain/errors.py"

P("P04", "Currency is never negative and never finer than 10^-9",
  "A currency value can only ever hold an amount that is zero or positive and has at most nine decimals, however it was made: constructor, assignment, JSON, arithmetic or in-place "
  "arithmetic. Anything else is refused with the documented error (negative value or precision overflow), while every non-negative amount of at most nine decimals is accepted. "
  "A block stake can never be negative either.",
  ["inputs", "histories"], "every value given to a currency or block stake and every sequence of operations on it",
  "amounts are unbounded decimals and reach the value through many operations; tests check a few strings",
  [PRIM, ERRS], [("checked setter", PRIM + ":Currency.value, Blockstake.value"), ("documented errors", ERRS + ":CurrencyNegativeValue, CurrencyPrecisionOverflow")])

P("P05", "Currency arithmetic is exact and leaves its operands alone",
  "Adding, subtracting, multiplying and comparing currencies gives the result of the same operation on the two amounts, in the order written, also when one side is a plain number or text. "
  "The result is a new currency: neither operand changes, except the left side of an in-place operation.",
  ["inputs"], "every pair of operands and every operator, either side a number",
  "each operator is a separate method and reflected forms only run when the left operand is not a currency",
  [PRIM], [("operators", PRIM + ":Currency.__add__, __sub__, __rsub__, __mul__, __lt__ .. __ge__ and in-place forms")])

P("P06", "One currency scale everywhere",
  "One coin is 10^9 indivisible units in every representation: the JSON form is the decimal count of units and reads back to the same amount, the integer form is that count, and the binary forms write "
  "that count as a big-endian magnitude of minimal length, length-prefixed. Block stakes use the same forms on the whole number.",
  ["inputs"], "every representable amount", "a wrong scale or padding shows only for amounts with particular digit counts",
  [PRIM], [("integer and JSON form", PRIM + ":Currency.__int__, json, from_json"), ("binary forms", PRIM + ":Currency.sia_binary_encode, rivine_binary_encode; Blockstake likewise")])

P("P07", "Fixed-size data has its size",
  "Data of a fixed-size kind (hashes, signatures, atomic-swap secrets, ERC20 addresses) is either unset or exactly its declared number of bytes; another length is refused, however the value is given. "
  "Fixed-size data is encoded without a length prefix, variable-size data with one; a signature is prefixed except where its context asks for the bare array in the Rivine format.",
  ["inputs"], "every text or byte value of every length given to every fixed-size type",
  "each kind declares its own size and every way of giving a value must pass the same check",
  [PRIM, "tfchain/types/ERC20.py", "tfchain/types/ConditionTypes.py", "tfchain/types/FulfillmentTypes.py"],
  [("checked setter", PRIM + ":BinaryData.value"), ("declared sizes", PRIM + ":Hash; tfchain/types/ERC20.py:ERC20Address, ERC20Hash; tfchain/types/ConditionTypes.py:AtomicSwapSecret, AtomicSwapSecretHash; "
    "tfchain/types/FulfillmentTypes.py:ED25519Signature")])

COND = "tfchain/types/ConditionTypes.py"
FULF = "tfchain/types/FulfillmentTypes.py"
CRYP = "tfchain/types/CryptoTypes.py"
IOF = "tfchain/types/IO.py"
BOT = "tfchain/types/ThreeBot.py"
TXD = "tfchain/types/transactions/"
TXF = [TXD + n for n in ("Base.py", "Standard.py", "Minting.py", "ThreeBot.py", "ERC20.py")]
JSU = "tfchain/internal/jsutils.py"

P("P08", "Every building block has one binary layout",
  "Hashes, addresses, public keys, conditions, fulfillments, inputs, outputs, names and network addresses each write the protocol's fixed sequence of fields, in its order and widths, in both the Sia and "
  "the Rivine format: a condition or fulfillment as its type byte and its length-prefixed content, an address as type byte and hash, a public key as algorithm specifier and key. The content "
  "counted by a prefix is the content written after it, and every optional part is written exactly when it is present.",
  ["inputs"], "every value of every building block, with every combination of unset, set and nested parts, in both formats",
  "a swapped field, a wrong width or a form for an unset part changes bytes only for particular combinations of parts, and tests compare a handful of hex strings",
  [COND, FULF, CRYP, IOF, BOT, PRIM],
  [("condition layouts", COND + ":UnlockHash, ConditionBaseClass, Condition*.sia_binary_encode_data / rivine_binary_encode_data"),
   ("fulfillment layouts", FULF + ":Fulfillment*"), ("keys and ids", CRYP + ":PublicKey"), ("inputs and outputs", IOF), ("3Bot values", BOT)])

P("P09", "Every transaction version has one binary layout",
  "The binary form of a transaction is its version followed by that version's fields in the protocol's order and encoding (version 0 and 1 in the Sia format, versions 128, 129, 144, 145, 146, 208 and 209 "
  "in their own), with every input, output, fee, name, address, key, signature and data field present exactly once and every flag or count agreeing with the fields that follow it.",
  ["inputs"], "every transaction of every version, with any number of inputs, outputs and optional fields",
  "layouts have many optional fields and packed flag bytes; tests encode a few examples of a few versions",
  TXF, [("binary encoding per version", ", ".join(n + ":binary_encode / _binary_encode_data" for n in TXF)),
        ("packed month and flags byte", TXD + "ThreeBot.py:BotMonthsAndFlagsData")])

P("P10", "A signature covers the whole transaction",
  "The hash an input signs commits to the transaction version, the input's own index and extra objects, and every field of the transaction whose change would alter its effect, in the protocol's order; only signatures "
  "themselves are left out. Each signature request carries a factory bound to its own input's index (or specifier), so signatures of different inputs or roles are never interchangeable.",
  ["inputs"], "every transaction version, every field, every input index and every signing role",
  "a field left out of the signed content lets it be changed after signing, and no test notices because encoding and signing still round-trip",
  TXF + [FULF], [("signature hash per version", TXD + "Base.py:signature_hash_get; _signature_hash_input_get of every version"),
                 ("per-request factory", TXD + "Base.py:InputSignatureHashFactory; _extra_signature_requests_new / signature_requests_new")])

P("P11", "Identifiers are computed the protocol's way",
  "The transaction id is the blake2b-256 digest of the version's id content, and the id of an output is the digest of the protocol's specifier for its kind, the same content and the output's index, so equal transactions have "
  "equal ids and no two outputs of one transaction share an id. An index outside the transaction's outputs is refused.",
  ["inputs"], "every transaction of every version and every output index",
  "specifiers and content differ per version and kind; tests pin one or two ids",
  TXF + [JSU], [("ids", TXD + "Base.py:transaction_id_new, coin_outputid_new, blockstake_outputid_new, _id_input_compute"), ("digest", JSU + ":blake2b")])

P("P12", "What is assigned is what is read",
  "Every assignable attribute of a transaction, input, output, condition, fulfillment, key or signature accepts exactly the kinds and ranges of value its documentation names, refuses others with a type or value error, "
  "and reads back the value assigned (converted to the attribute's type, in the same order, with the documented default when unset). Giving the value to the constructor is the same as assigning it. "
  "Lists of 3Bot names and addresses never exceed the protocol's maximum.",
  ["inputs", "histories"], "every attribute of every data type and every value assigned to it",
  "over a hundred attributes each convert their own types; tests assign a few of them with well-formed values",
  [COND, FULF, CRYP, IOF] + TXF, [("property setters", "all @x.setter in the listed files"), ("constructors", "all __init__ in the listed files")])

P("P13", "JSON form and object determine each other",
  "Every transaction version, input, output, condition, fulfillment, key, signature and value has one documented JSON form: fixed keys, each present exactly when the format says, "
  "amounts as decimal texts, hashes and addresses as hexadecimal texts, binary data as base64 or hexadecimal. Reading a JSON form written by the library gives back an equal object, and JSON that lacks a required "
  "part, has the wrong version or the wrong type tag, is refused.",
  ["inputs"], "every object of every transaction version, condition and fulfillment kind, with every combination of optional parts",
  "readers and writers are written separately for every class and every optional key doubles the combinations; tests read a few whole transactions",
  [PRIM, COND, FULF, CRYP, IOF, BOT, "tfchain/types/ERC20.py", "tfchain/types/BaseDataType.py"] + TXF,
  [("JSON writers", "all json() methods"), ("JSON readers", "all from_json / _from_json_data_object / from_json_txn_data methods"),
   ("dispatch", COND + ":from_json; " + FULF + ":from_json; tfchain/types/transactions/__init__.py:from_json")])

P("P14", "Addresses commit to their condition and are read exactly",
  "An address text is 78 hexadecimal digits: type, 32-byte hash and the first 6 bytes of the blake2b-256 digest of both; a text with another length, a wrong checksum or a hash that is not hexadecimal is refused, the nil address being all zeros. "
  "The address of a condition or key is the protocol's hash of exactly that condition's content: single key, atomic swap, and for multi-signature the Merkle root of owner count, the owners in sorted order "
  "and the required number.",
  ["inputs"], "every address text, every public key and every condition, with any number of owners",
  "an address that does not commit to every part of its condition, or a checksum not compared in full, is only seen with values nobody samples",
  [COND, CRYP, "tfchain/crypto/merkletree.py", "tfchain/types/__init__.py"],
  [("text form and checksum", COND + ":UnlockHash.from_str, from_json, __str__"), ("addresses of conditions", COND + ":*.unlockhash; " + CRYP + ":PublicKey.unlockhash"),
   ("Merkle tree", "tfchain/crypto/merkletree.py:Tree.push, root")])

P("P15", "Texts with a grammar are accepted exactly",
  "3Bot names, host names and IP addresses, ERC20 addresses, amount texts and fixed-size hexadecimal texts are accepted exactly when they are in their documented language, in full and not just as a prefix, "
  "and every other text is refused. Amounts are printed as the shortest decimal text with at most nine decimals, with the unit only when asked for.",
  ["inputs"], "every text given to a name, network address, ERC20 address, amount or hash",
  "grammars have infinitely many members and tests list a few valid and invalid texts",
  [BOT, PRIM, "tfchain/types/ERC20.py"],
  [("names and addresses", BOT + ":BotName.value, NetworkAddress.address"), ("ERC20 address", "tfchain/types/ERC20.py:ERC20Address.is_valid_value"), ("amount texts", PRIM + ":Currency.from_str, str")])

P("P16", "Recipients and locks become the condition asked for",
  "A recipient given as nothing, an address, a list of owners, an owner list with a required count (either order) or a condition becomes exactly the corresponding nil, single-signature or multi-signature "
  "condition, wrapped in a time lock when a lock is given; anything else is refused. A lock given as block height, time stamp, date, duration or date text means that moment: values from 500000000 on are time stamps, "
  "an output is locked until the height or time reaches the lock. A time lock wraps only conditions it can be read back with, and each condition gets the fulfillment kind that can satisfy it.",
  ["inputs"], "every recipient form, every lock form and text, every height and time",
  "the forms combine and the boundary between heights and times is one value; tests use a few of them",
  [COND, FULF, JSU], [("recipients", COND + ":from_recipient, *_new"), ("locks", COND + ":OutputLock; " + JSU + ":Duration.clean, DateTime.clean, Time_.getDeltaTime"),
                      ("fulfillment kinds", FULF + ":from_condition")])

P("P17", "Signatures are asked of exactly those who still have to sign",
  "Every owner of an input (or of an extra signing role) that has not signed yet is asked exactly once, for its own address, and an input without known parent output is not asked for. A request is fulfilled at most once, "
  "only with a key whose address is the one asked for (any key for the nil address), signs the hash generated for that very request, and delivers the signature with its public key to the part that asked.",
  ["inputs", "histories"], "every transaction version, condition kind, set of owners, already present signatures and order of signing",
  "which requests remain depends on the history of signatures given; tests sign one or two transactions once",
  [FULF, IOF] + TXF, [("requests", FULF + ":SignatureRequest; *.signature_requests_new; " + IOF + ":*.signature_requests_new"), ("extra roles", "_extra_signature_requests_new of every version"),
                      ("receivers", "signature_add of every fulfillment and version")])

P("P18", "Fulfilled means every required signature is there",
  "A transaction counts as fulfilled exactly when every input does and every extra signature its version needs is present; an input whose parent output is unknown is not fulfilled. "
  "A single or atomic-swap input needs its signature, a multi-signature input at least the required number of signatures, and a fulfillment that does not fit its condition is refused.",
  ["inputs", "histories"], "every transaction version, every input and condition kind and every subset of signatures",
  "the subsets of signatures grow exponentially with inputs and owners; tests check fully signed examples",
  [FULF, IOF, PRIM] + TXF, [("fulfilment", FULF + ":*.is_fulfilled; " + IOF + ":*.is_fulfilled; " + TXD + "Base.py:is_fulfilled; _extra_is_fulfilled of every version")])

CLI = "tfchain/TFChainClient.py"
EXP = "tfchain/TFChainExplorerClient.py"
HTTP = "tfchain/internal/HttpClient.py"
WAL = "tfchain/TFChainWallet.py"

P("P19", "Every explorer is tried, and failures keep their meaning",
  "Reading or submitting tries the configured explorers one after another, each at most once, until one answers; only connection failures move on to the next, and when none can be reached the caller is told so with the addresses tried. "
  "An answer is returned unchanged only for status 200; missing content (204, or an unknown hash) and server errors are reported as the distinct documented errors with their endpoint and data. "
  "Submitted data is sent as JSON bytes to exactly the requested endpoint.",
  ["fault_sequences", "inputs"], "every list of explorers, order of trying, sequence of failures and answers, every endpoint and data",
  "the sequences of connection failures and status codes are unbounded and tests replace this layer by a stub",
  [EXP, HTTP, ERRS, JSU], [("retry loop", EXP + ":get, post"), ("HTTP", HTTP + ":Connection._http_request, HTTPError"), ("errors", ERRS)])

P("P20", "Explorer answers are checked before they are believed",
  "A block, transaction, output or address is returned only if the answer is of the kind asked for and carries the id or height asked for, and the numbers of inputs, parent outputs, outputs and ids agree; "
  "otherwise, and when a part is missing, the caller gets the invalid-response error (or the documented not-found error). Parent outputs, output ids, heights and unconfirmed state are attached to exactly the input, output or "
  "transaction they belong to, and the transactions of an address are ordered newest first with unconfirmed ones in front.",
  ["inputs", "fault_sequences"], "every answer an explorer can give to every request",
  "answers come from outside and can be wrong in any part; tests use recorded correct answers",
  [CLI], [("blocks, transactions, outputs, addresses", CLI + ":block_get, transaction_get, unlockhash_get, _output_get, _transaction_from_explorer_transaction"),
          ("sub-clients", CLI + ":TFChainMinterClient, TFChainThreeBotClient, TFChainERC20Client")])

P("P21", "Balances follow from the history",
  "Every output of an address is counted once, in exactly one state: spent, spent unconfirmed, confirmed or unconfirmed, with the earlier of these prevailing whatever order the history is given in, and an output spent anywhere is never offered as available. "
  "Available and locked amounts split the unspent outputs by their lock at the chain height and time of the balance. Merging balances keeps these rules, refuses balances of inconsistent chain states, and keeps multi-signature wallets apart by address; "
  "the wallet's balance covers all its addresses and the multi-signature addresses linked to them, and addresses without activity count as empty.",
  ["histories", "inputs"], "every history of an address and every order of its transactions, every lock, chain height and time, every set of addresses",
  "the result depends on arbitrary histories and on merging in arbitrary order; tests use a few recorded addresses",
  [WAL, CLI], [("buckets", WAL + ":WalletBalance.output_add, balance_add; MultiSigWalletBalance; WalletsBalance"), ("amounts", WAL + ":WalletBalance.available, locked, unconfirmed, unconfirmed_locked"),
               ("history", CLI + ":ExplorerUnlockhashResult.balance; " + WAL + ":TFChainWallet.balance, transactions")])

P("P22", "The client works on the network it was built for",
  "Every network name means one network and an unknown name is refused; networks compare by their number and have their own minimum miner fee and default explorers (only the development network uses a local explorer). "
  "A client built without explorers uses the default explorers of its network, the standard network if none is given; a client built on given explorers uses exactly those and asks them for the network when it is not given. "
  "All parts of a client and wallet talk through that same client, and every fee default is the minimum fee of its network.",
  ["inputs", "configurations"], "every network name, network value, combination of explorer client and network, every part of the wallet",
  "a client on the wrong network silently sends real money or looks at the wrong chain; tests replace the client by a stub",
  [CLI, EXP, WAL], [("networks", CLI + ":NetworkType"), ("client", CLI + ":TFChainClient.__init__"), ("parts", WAL + ":TFChainMinter, TFChainAtomicSwap, TFChainThreeBot, TFChainERC20")])

P("P23", "Funding uses only what may be spent, and covers the amount exactly",
  "Funding an amount picks outputs that are available (unconfirmed ones only when the confirmed ones do not suffice) and whose address is among the allowed source addresses, by default all personal addresses of the wallet, each output at most once and never more than 99 of them; "
  "a single output that covers the amount is used alone, otherwise outputs are collected from small to large (unconfirmed from large to small), dropping the first collected one when there are too many. "
  "What is returned is one input per picked output, the exact excess of their total over the amount, and, for a single source address, the refund condition of that address. "
  "If the total does not reach the amount the insufficient-funds error is raised, and sources that are neither personal nor multi-signature addresses are refused.",
  ["inputs", "histories"], "every balance (any number of outputs of any value, confirmed or not, personal or multi-signature), every amount and list of source addresses",
  "selection is a search over arbitrarily many outputs; tests have a few balances",
  [WAL], [("allowed sources, refund, remainder", WAL + ":WalletsBalance.fund"), ("selection", WAL + ":WalletsBalance._fund_individual, _fund_multisig")])

P("P24", "Sending moves exactly what was asked for, and only complete transactions are submitted",
  "Sending builds one transaction with the requested outputs, the network's minimum miner fee, inputs funded for the sum of both, and the exact remainder, if any, going to the given refund recipient, else to the single source address, else to the wallet's own address; nothing else is spent. "
  "Amounts that are not positive and locks or data on payments to ERC20 addresses are refused before anything is sent. Every signature the wallet can give is given after the transaction is complete; the transaction is submitted once and only if all signatures are there, its id is recorded, and spent and received outputs "
  "become part of the balance. The transaction builder does the same for several outputs and can be used once. Draining spreads all available outputs over transactions of at most 99 inputs, each output once, each transaction paying its total minus the fee to the recipient.",
  ["inputs", "histories"], "every recipient, amount, source, refund, lock and data, every balance and set of keys, every sequence of outputs added",
  "the amounts depend on whatever outputs the wallet holds and signatures on whichever keys it has; tests send a few recorded amounts",
  [WAL], [("sending", WAL + ":TFChainWallet.coins_send"), ("builder", WAL + ":CoinTransactionBuilder"), ("draining", WAL + ":WalletBalance.drain")])

P("P25", "Keys come from the seed, and secrets stay in the wallet",
  "The same seed always gives the same keys in the same order: key number n is derived from the seed and n alone, each number is used once, and opening a wallet finds every key that was used on the chain, with unused keys before the last used one offered again first. "
  "A wallet signs for exactly the addresses of its keys, an address has one key, and looking up any other address is refused. The seed and private keys reach nothing but key derivation, signing and the accessors that are documented to return them: no error, no other result, no request. "
  "New seeds, secrets and nonces are as long as declared and come from the operating system's random generator.",
  ["inputs", "histories"], "every seed, number of keys, pattern of used and unused keys on the chain, address",
  "which keys are used on the chain is an arbitrary pattern, and that a secret does not leak or is random cannot be observed by a test",
  [WAL, JSU, COND, TXD + "Minting.py"], [("derivation and scan", WAL + ":TFChainWallet._key_pair_new, _key_pair_add, _key_scan, key_pair_get"), ("secrets", WAL + ":SpendableKey, seed, mnemonic"), ("randomness", JSU + ":generateXByteID; " + COND + ":AtomicSwapSecret.random")])

P("P26", "Signing adds what the wallet can sign, and minting goes by the current minters",
  "Signing a transaction, given as text or object, first attaches the wallet's own unspent outputs (confirmed, unconfirmed and multi-signature) to exactly the inputs that spend them and, for minting transactions, the current mint condition with an empty fulfillment if there is none, "
  "then gives every signature asked of one of its keys and no other, keeps all content and signatures that were there, and reports truthfully whether it signed and submitted; it submits only complete transactions, at most once, and never when told not to. "
  "A new minter definition or coin creation pays the minimum fee, carries the requested condition, amount, lock and data, is signed against the mint condition valid now, and refuses minters that are not single- or multi-signature addresses and amounts that are not positive. The balance follows what was submitted.",
  ["inputs", "histories"], "every transaction (any kind, inputs, already present signatures), every set of keys and balance, every minter, recipient, amount, lock and data",
  "what can be signed depends on arbitrary sets of keys, requests and outputs; tests sign a few recorded transactions",
  [WAL, TXD + "Minting.py"], [("signing", WAL + ":TFChainWallet.transaction_sign, TransactionSignResult"), ("minting", WAL + ":TFChainMinter.definition_set, coins_new")])

P("P27", "An atomic swap is only entered, claimed and refunded on its terms",
  "Creating a contract locks exactly the requested amount for the given receiver, hashed secret and refund time (relative times count from chain time), with this wallet, or the single refund address, as the sender who can take it back; amounts that could not pay the fee of being claimed are refused. "
  "Initiating uses a new random secret that is returned to the initiator only; participating uses the given secret hash. "
  "A contract verifies only if it exists, is unspent and has the expected output, amount, secret hash, remaining time and roles; redeeming needs the matching secret and the receiver's wallet, refunding the sender's wallet and a refund time that has passed, and a spent or missing contract is refused with its own error. "
  "A claim moves the whole amount minus the fee to the claiming side's address and is submitted only when fully signed.",
  ["inputs", "histories", "time"], "every contract, secret, role, amount and refund time, every chain time, every state of the output on the chain",
  "correctness depends on the order of times, roles and secrets of two parties; tests run a few recorded swaps",
  [WAL, "tfchain/types/AtomicSwap.py"], [("operations", WAL + ":TFChainAtomicSwap.initiate, participate, verify, redeem, refund, _create_contract, _claim_contract"), ("contract", "tfchain/types/AtomicSwap.py:AtomicSwapContract")])

P("P28", "A 3Bot operation pays exactly its fee, and only for active 3Bots",
  "Registering, updating and transferring build a transaction with exactly the requested names, addresses and months, funded for the miner fee plus the 3Bot fees of that content, with the remainder as the single refund output. "
  "The fees are 90 TFT to register, 10 TFT per month with 30% discount from 12 and 50% from 24 months, 50 TFT per name beyond the first at registration and per added or transferred name later, and 20 TFT when addresses change. "
  "Registration needs a name or an address and uses a new key or the key of the given index; updates need some change; an inactive 3Bot is refused unless the update pays for months, and both sides of a transfer must be active. "
  "The owners' keys are those of the records on the chain, and the transaction is submitted once, only when fully signed.",
  ["inputs", "histories", "time"], "every number of months, list of names and addresses, key index, source and refund, every state of the 3Bots on the chain",
  "fees and checks depend on combinations of content, expiry times and balances; tests use a few recorded 3Bots",
  [WAL, TXD + "ThreeBot.py"], [("operations", WAL + ":TFChainThreeBot"), ("fees", TXD + "ThreeBot.py:compute_monthly_bot_fees, required_bot_fees")])

P("P29", "ERC20 operations use the right address and pay exactly what they convert or register",
  "Converting sends exactly the requested positive amount to the given ERC20 address, funded for the amount and the miner fee, with the remainder as the single refund output. "
  "Registering uses the wallet's own address that was given by value or index, or a new one, pays the fixed fee of 10 TFT, and refuses addresses of others and indices out of range; looking up does the same choice, by default for the primary address, and listing covers every address of the wallet that is registered. "
  "Transactions are submitted once, only when fully signed, and become part of the balance.",
  ["inputs", "histories"], "every amount, address, index, source and refund, every wallet and every set of registered addresses",
  "amounts depend on the outputs held and which addresses are registered is an arbitrary set; tests use a few recorded cases",
  [WAL, TXD + "ERC20.py"], [("operations", WAL + ":TFChainERC20"), ("fee", TXD + "ERC20.py:TransactionV210.registration_fee")])

P("P30", "Failures are the deliberate ones",
  "No operation of the library, on any path and in particular on error paths, fails by a mistake of the program itself: every name it refers to is defined and assigned before use, every attribute it reads exists on the objects it is read from, every object has all its fields set once constructed and implements every abstract operation, "
  "every call passes arguments the callee takes, every error message can be formatted with the values given to it, and whatever is raised or caught is an exception. So what a caller sees is the documented error (such as ValueError, TypeError or one of tfchain.errors), never a NameError, AttributeError, UnboundLocalError or a failure to build the error.",
  ["inputs", "histories"], "every path of every function, including the error paths that need unusual answers from an explorer or invalid input",
  "most of the about 380 places that raise or catch are never reached by a test, and Python finds such mistakes only when the line runs",
  ["tfchain/**/*.py"], [("everything", "tfchain (every module)")])

P("P31", "Reading changes nothing",
  "An operation changes only what it is there to change. Asking for something - reading a property, comparing, printing, converting to JSON or to binary, computing an identifier, a hash to sign, a fee or a balance, collecting the outputs to fund an amount, looking something up at an explorer - leaves every object as it was, "
  "including the objects given as arguments and those it can reach from them; in particular an amount, list or condition passed in still has the same content afterwards (amounts add in place only where the caller's own total is meant). "
  "Adding to, setting on, signing or funding a transaction or balance changes that object and not the values given to it. No call leaves something behind in module- or class-level objects or in default arguments that a later, unrelated call would see; "
  "exceptions are the address discovery of a wallet (keys found in use are remembered), the encoders by name, and the time of the debug print.",
  ["inputs", "histories"], "every function, every path through it and every object reachable from its arguments",
  "such a change is seen only when the same object is used again later, in another order than the tests use; amounts add in place, so one missing copy changes a caller's value",
  ["tfchain/**/*.py"], [("everything", "tfchain (every module)")])

P("P32", "What is printed is what is held",
  "The texts made for people show the amounts, parties and times the object holds, with the unit of the currency: the report of a balance gives the available and the locked amount, the unconfirmed ones (available and locked) when any is positive and what unconfirmed spending takes off, headed by the height and time of the report when both are known; "
  "the report of a multi-signature wallet adds the number of signatures asked for, the owners and the address, and the report of a whole wallet includes every active multi-signature wallet. The report of an atomic swap contract says whether it is spent, and otherwise since when or at what time and in how long it can be refunded, with its value, sender, receiver and secret hash. "
  "The chain report shows the last block with its height and time, the report of an address the number of transactions and multi-signature addresses found. A duration is printed as its days, hours, minutes and seconds, a lock as its height or its time, a transaction as its version and identifier.",
  ["inputs", "histories"], "every balance, contract, chain state, duration and time",
  "no test looks at these texts, and which parts they show depends on amounts and times that are arbitrary",
  [WAL, "tfchain/TFChainClient.py", "tfchain/types/AtomicSwap.py", "tfchain/internal/jsutils.py"], [("reports", WAL + ":WalletBalance"), ("contract", "tfchain/types/AtomicSwap.py:AtomicSwapContract")])

P("P33", "Secrets stay in the wallet",
  "The seed of a wallet, the words that stand for it, the private keys made from it and the secret a wallet chose for a swap are handed out by nothing but the operations that exist to do so: the seed and the mnemonic of the wallet, the private key of a key pair, the signing operations inside it, and the secret of the result of an initiated swap. "
  "They never occur in the message of an error, in text that is printed or logged, in a request to an explorer or in what is sent to the network, in a transaction other than the secret revealed when its holder redeems the swap, in the environment or in a file, nor in the fields of an object or the result of an operation that is not one of those. What is made of them and is public by nature, public keys, addresses, signatures and the hash of a secret, may go anywhere.",
  ["inputs", "histories"], "every seed, key and swap secret, on every path including the failing ones",
  "a test sees the texts and requests of the runs it makes; whether a secret can reach one of them is a question about all paths",
  [WAL, "tfchain/TFChainClient.py", "tfchain/types/CryptoTypes.py"], [("wallet secrets", WAL + ":TFChainWallet"), ("key pair", WAL + ":SpendableKey"), ("swap secret", WAL + ":AtomicSwapInitiationResult")])


P("P34", "Equality is equality of content",
  "Two values are equal exactly when what they stand for is: binary data and hashes when their bytes are (text and bytes compare as the data they denote), addresses when type and hash are (an address text compares as its address), networks, address kinds, key algorithms and transaction versions when their numbers are, also against a plain number, transactions when their hashes are, made from the identifier or, without one, from the whole JSON form, "
  "and swap contracts when output, amount, state and terms are. Unequal is the opposite of equal, equal hashes and addresses have equal hash values, so that they are found again in sets and dictionaries, and comparing with something of another kind, or binary data of another declared size or text encoding, is refused with a TypeError. The number of a kind is the one it was made with.",
  ["inputs"], "every pair of values", "tests compare a few equal values; which part of the content decides equality, and whether every part does, is a question about all pairs",
  ["tfchain/types/PrimitiveTypes.py", "tfchain/types/ConditionTypes.py", "tfchain/types/CryptoTypes.py", "tfchain/types/transactions/Base.py", "tfchain/types/AtomicSwap.py"],
  [("binary data", "tfchain/types/PrimitiveTypes.py:BinaryData"), ("address", "tfchain/types/ConditionTypes.py:UnlockHash"), ("transaction", "tfchain/types/transactions/Base.py:TransactionBaseClass")])

P("P35", "Dates, durations and periods have one meaning",
  "The helpers for dates and times agree with each other. A time is written in the form asked for, in local time unless the other is asked for. What denotes a time denotes the same one in every form: a number is that time, a text is read as a date with a time of day or, failing that, as a date (the start of that day, local time), a datetime is its own time, a list the first of its items that is not empty, nothing is 0, and anything else is refused with a ValueError "
  "(inside a list it counts as empty). Numbers of minutes, five minutes, hours and days count the whole ones since 1 January 2010, a time before that is refused, and the start of a five-minute period is read back from its number. A date is the start of the day it denotes. A number of seconds is shown in the largest unit that fits, rounded to one decimal. A hash of text is the hash of its UTF-8 bytes, in the size asked for.",
  ["inputs"], "every time, date text, datetime, list, number of seconds, text and hash size", "the forms overlap and units change at boundaries; no test calls these helpers, and what they return depends on arbitrary times",
  ["tfchain/internal/jsutils.py"], [("times", "tfchain/internal/jsutils.py:Time_"), ("dates", "tfchain/internal/jsutils.py:DateTime, Date, Duration"), ("hash", "tfchain/internal/jsutils.py:blake2")])

P("P36", "An HTTP helper makes the request it is named after",
  "Each HTTP helper sends one request to the address given, with the method it is named after (HEAD for the head, PUT, DELETE), with the data, headers and parameters it was given and no others, and returns the answer. Logging in with a name and password sends them in the standard Basic form (base64 of name, colon and password), and a failure to connect is reported as a RuntimeError. A ping says yes exactly when the server answers 200 or asks for a login (401). "
  "A download writes everything that was received, in order, to the path given. The text of a failed request shows its status and what the server said.",
  ["inputs", "faults"], "every address, method, header, parameter, data and answer, including failures to connect", "the tests replace the network, so nothing about a real request is ever looked at",
  ["tfchain/internal/HttpClient.py"], [("requests", "tfchain/internal/HttpClient.py:Connection"), ("client", "tfchain/internal/HttpClient.py:HttpClient")])
