#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script only because the lines are long)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mech]}
    if state: a["state"] = [{"name": n, "meaning": n, "where": files[0]} for n in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("P01", "Lexing yields exactly the tokens written in the policy text",
  "Turning a policy text into tokens yields, in order, exactly one token for every lexeme written (operators, parentheses, braces, commas, numbers, strings, keywords in any letter case, attribute names with their category), each with the right kind, its exact value and the character position where it starts, between a start and an end marker, however the text is spaced and whether it is read all at once or token by token. "
  "Text that is not made of such lexemes is reported as a lexical error at the position of the offending character, never as tokens and never as any other kind of failure. "
  "The list of attribute tokens is exactly the attribute tokens of the text, in order.",
  ["inputs"], "every policy text: any lexemes in any order, spacing, letter case, length and position; every malformed text",
  "The texts are unbounded; the tests list some forty fixed strings.",
  ["hgpl/lexing.py"], ["Lexer.next", "Lexer._number", "Lexer._string", "Lexer._id", "Lexer.tokenize"],
  ["token list", "attribute list", "text position"], ["tokens returned by next/toke_list/att_list", "LexerError.pos"])

p("P02", "Parsing follows the grammar, with AND over OR and left associativity",
  "A token sequence is accepted exactly when it is a sentence of the policy grammar, and the tree built groups it by parentheses first, then NOT, then AND, then OR, equal operators to the left, keeping every operand, operator, constant and attribute, in order and at its position. "
  "Anything else, including empty, truncated or over-long input, is reported as a syntax error and never yields a tree or another kind of failure. "
  "The error points at a token of the input, no later than the first token that cannot continue any policy.",
  ["inputs"], "every token sequence, valid or not, of any length and nesting (up to what the Python stack holds)",
  "Infinitely many sentences and non-sentences; precedence and associativity only show with particular combinations of operators.",
  ["hgpl/parsing.py", "hgpl/ast.py"], ["Parser.parse", "Parser._policy_rule", "Parser._term_rule", "Parser._exp_rule"],
  ["token position"], ["returned tree", "ParserError"])

p("P03", "Policies are decided by three-valued (Kleene) logic",
  "The decision for a policy is the Kleene three-valued value of its formula: NOT, AND and OR over TRUE, FALSE and UNDEF, at any nesting and in either operand order. "
  "A sub-expression that is FALSE forces its conjunction to FALSE and one that is TRUE forces its disjunction to TRUE, whatever truth value the other operand has, and UNDEF never turns into TRUE or FALSE by itself. "
  "Only TRUE counts as true when a decision is used as a condition.",
  ["inputs"], "every boolean structure over constants, comparisons and boolean attributes with any truth values",
  "The space of formulas and truth assignments is unbounded; tests evaluate a handful with fixed shape.",
  ["hgpl/interpreting.py", "hgpl/ast.py"], ["ASTResult.__and__", "ASTResult.__or__", "ASTResult.__not__", "Interpreter._evaluate_bool_op_node", "Interpreter._evaluate_not_node"],
  None, ["Interpreter.evaluate result", "bool(result)"])

p("P04", "Comparisons decide equality, order, membership and inclusion correctly",
  "A comparison of constants and attribute values is TRUE exactly when the relation holds and FALSE exactly when it does not: equality and inequality of numbers, strings, NULL and sets, the four orderings of numbers, IN as membership (an intersection if the left side is a set) and SUBSET as inclusion, with integers and floats compared by value, sets without regard to order and repetition, and a single attribute value compared with a set or another attribute standing for the one-element set. "
  "Operands for which the relation has no meaning (such as ordering strings, or comparing a number with a string constant) give UNDEF.",
  ["inputs"], "every operator, every pair of operand kinds (constant or attribute, number, string, NULL, boolean, set) and every value",
  "Eight operators times every pair of operand forms and all values; tests cover a few with small numbers.",
  ["hgpl/interpreting.py"], ["Interpreter._eq_op", "Interpreter._in_op", "Interpreter._subset_op", "Interpreter._gt_op", "Interpreter._symbol_to_val"],
  None, ["Interpreter.evaluate result"])

p("P05", "Missing, unset or mistyped attributes never grant access",
  "An attribute that is not defined, has no value, has no declared type, or has a value that does not match its declared type makes every comparison it takes part in UNDEF, and counts as UNDEF where a truth value is needed. "
  "An attribute whose value is not a truth value, used where one is needed, makes the evaluation fail with an evaluation error. "
  "An evaluation ends only with TRUE, FALSE or UNDEF or with an error of the policy language, so nothing that is not TRUE can be taken for a grant.",
  ["inputs"], "every policy and every attribute table, including absent, empty, untyped, wrongly typed and oddly valued attributes in any position of the policy",
  "The combinations of absent or mistyped attributes and policy positions are unbounded; tests use well-formed tables.",
  ["hgpl/interpreting.py", "hgpl/symbols.py"], ["Interpreter._evaluate_att_node", "Symbol.check_val_type", "Interpreter.evaluate"],
  None, ["Interpreter.evaluate result or exception"])

p("P06", "A decision depends only on the policy and the attribute values given",
  "Evaluating a policy gives the decision for the attribute values supplied with that call, whatever was evaluated before with the same or other policies, trees, tables or evaluators, whatever happened in between (changed values or types, type checks, encoding), and whether an earlier evaluation failed. "
  "Evaluating does not change the policy, nor the attribute table or the values in it.",
  ["histories"], "every sequence of evaluations, table changes, type checks and encodings over shared evaluators, trees and tables",
  "The failure is a matter of history: a result, warning or value left over from an earlier step; tests evaluate once.",
  ["hgpl/interpreting.py", "hgpl/ast.py", "hgpl/symbols.py"], ["Interpreter._evaluate_node", "Interpreter.evaluate", "ASTNode.result"],
  ["node results", "symbol table", "warnings"], ["Interpreter.evaluate result", "symbol table contents after each step"])

p("P07", "Warnings of an evaluation are complete, its own, and stop it as asked",
  "An evaluation warns exactly about the attributes it could not use (once or more each, at the position in the policy) and about comparisons whose operands do not fit, and about nothing else, and the warnings reported are those of the latest evaluation only. "
  "It raises a warning instead of returning a decision exactly when a threshold at or below warning level was given and there was something to warn about.",
  ["inputs", "histories"], "every policy, attribute table, threshold level and sequence of evaluations",
  "Depends on which attributes fail in which position and on earlier evaluations; tests do not look at warnings.",
  ["hgpl/interpreting.py", "hgpl/errors.py"], ["Interpreter._warn", "Interpreter.get_warnings", "Interpreter.evaluate"],
  ["warnings"], ["get_warnings", "InterpreterWarning"])

p("P08", "The type checker reports exactly the type conflicts and infers attribute types",
  "The type checker reports an error for exactly the comparisons of constants that can never be meaningful (ordering strings, NULL or sets; equating different kinds; IN with a set on the left or no set on the right; SUBSET of non-sets) and a warning for exactly those attribute comparisons that conflict with the type the attribute got from an earlier comparison, at the operator's position, integers and floats being compatible. "
  "Each attribute of the policy, and nothing else, is listed with the type implied by its comparisons in reading order (unknown if none), and the overall result is the worst issue found. "
  "Checking raises an issue exactly when one at or above the requested level exists.",
  ["inputs"], "every policy: operators, operand kinds, repeated attributes across categories and letter case, order of comparisons, level requested",
  "Inference depends on the whole sequence of comparisons; tests check single comparisons.",
  ["hgpl/semantics.py"], ["TypeChecker._att_check", "TypeChecker._num_check", "TypeChecker._eq_check", "TypeChecker._in_check", "TypeChecker._subset_check", "TypeChecker.check"],
  ["inferred symbol table", "issue list"], ["get_issues", "get_result", "get_symbol_table"])

p("P09", "An encoded policy decodes to the same policy and the same decisions",
  "Encoding a policy tree and decoding it, plain or in base64, gives a tree with the same structure, node kinds, token kinds, positions and exact values, which gets the same decisions, type issues and encoding as the original, whatever was parsed, encoded or decoded before in the process. "
  "The bytes follow the documented layout, so encodings made by others with other node numbering or order decode to the tree they describe, and an encoding cut short never decodes to a tree.",
  ["inputs", "histories", "crash_points"], "every policy tree (all node kinds, any values, any size up to the 16-bit limits of the layout), every truncation point, every history of the process",
  "Values, sizes, numbering and truncation points are unbounded; tests encode one small tree.",
  ["hgpl/ast.py"], ["ASTEncoder.encode", "ASTEncoder.decode", "ASTEncoder._encode_node"],
  ["node ids"], ["encoded bytes", "decoded tree"])

p("P10", "Symbol tables keep one entry per attribute, found in any letter case",
  "A symbol table behaves like a map from category and attribute name, without regard to letter case, to a type and a value: the first definition of a name stays and later ones are refused, lookups return what was last set, changes to one attribute affect no other, and attributes with the same name in different categories are distinct. "
  "Building a table from per-category or mixed attribute values gives every attribute its own value, the type declared for it and its category, and truth values are stored as such. "
  "Asking for the value or changing the type or value of an unknown attribute fails and changes nothing.",
  ["histories", "inputs"], "every sequence of define, lookup, set, switch and build operations over any names and letter cases",
  "A property of operation histories; the test file for symbols is empty.",
  ["hgpl/symbols.py"], ["SymbolTable.define", "SymbolTable.lookup", "SymbolTable.set_value", "SymbolTable.switch_type", "SymbolTableBuilder.build"],
  ["symbol map"], ["return value of every operation", "names and symbols after every step"])

p("P11", "Every text ends in a decision or a located language error",
  "Running any text whatsoever through lexing, parsing, type checking and evaluation ends in a tree, issue list and decision, or in an error of the policy language, never in another kind of failure and never without end (text nested too deeply to be handled is an error of the language, too). "
  "The error names the text and a position within it (or its end), and its excerpt is the part of the text up to the requested distance around that position.",
  ["inputs"], "every character string, including empty, truncated, random, deeply nested and non-ASCII text; every position and excerpt length",
  "Quantifies over all strings; tests hold a few malformed ones.",
  ["hgpl/errors.py", "hgpl/lexing.py", "hgpl/parsing.py", "hgpl/interpreting.py"], ["HGPLError.near", "LexerError", "ParserError", "InterpreterError"],
  None, ["exception type, policy_text, pos and near()"])

p("P12", "Certificates survive export and import, in a fixed wire format",
  "Exporting an attribute certificate as bytes, base64 or armoured base64 and importing it again gives a certificate with the same content in every field, for any field values the format can hold (absent and empty being the same), and leaves the exported certificate and the imported input as they were. "
  "The exported bytes are exactly those of the published layout, so certificates issued earlier or by other implementations keep their meaning. "
  "A value the layout cannot hold is refused rather than altered.",
  ["inputs"], "every certificate: any field lengths up to 65535 bytes, any text, any serial, times over the 32-bit range, any number and order of attributes and extensions, any presence of optional parts",
  "Field values and lengths are unbounded combinations; the tests use one certificate with short ASCII fields.",
  ["hgaa/attcert.py"], ["AttributeCertificate.encode", "AttributeCertificate.decode", "ACIssuer.encode", "ACAttribute.encode", "AttributeCertificate.export_ac", "AttributeCertificate.import_ac"],
  None, ["exported bytes", "imported fields"])

p("P13", "A signature verifies only for exactly the content and key that made it",
  "A certificate verifies exactly when it carries the signature that the holder of the issuer key named in it made over exactly its present content; changing any byte of any content field, the issuer key or the signature value, moving a signature to another certificate, or leaving the signature out makes verification fail. "
  "Verification gives the same answer after export and import in every format, importing with verification returns only certificates that verify, and signing needs the private key.",
  ["inputs", "histories"], "every certificate, key, tampering of any field and sequence of sign, change, export, import and verify steps",
  "Any single missed field lets a forgery through; tests tamper with nothing but a few fields.",
  ["hgaa/attcert.py"], ["AttributeCertificate.sign", "AttributeCertificate.verify_signature", "AttributeCertificate._encode_body", "AttributeCertificate.decode"],
  ["signature", "certificate content"], ["verify_signature result", "import outcome with verification"])

p("P14", "Malformed certificate data is rejected, never misread",
  "Importing data that is not exactly one well-formed certificate, such as one cut off anywhere, followed by extra bytes, with inconsistent lengths or counts, an unknown attribute type or invalid text, fails, and data that is well-formed is read as exactly the certificate it describes. "
  "A failed import changes nothing the caller passed in.",
  ["inputs", "crash_points"], "every byte string, in particular every truncation point, appended bytes and altered length, count or type field of every certificate",
  "Every cut point of every certificate counts; tests import well-formed data only.",
  ["hgaa/attcert.py"], ["AttributeCertificate._decode_body", "ACSignature.decode", "ACAttribute.decode", "ACInformation.decode"],
  None, ["import outcome and fields"])

p("P15", "A certificate is valid strictly inside its validity window only",
  "A certificate is within its validity exactly when the time asked about (the present if none is given) is later than its valid-after time and earlier than its valid-before time, before and after any export and import. "
  "A limit that is not given is the moment of creation for the start and one day after the moment of creation for the end.",
  ["inputs"], "every window and every instant, including the boundaries, zero, reversed and empty windows and the end of the 32-bit range",
  "All pairs of windows and instants; tests check a few far-off instants.",
  ["hgaa/attcert.py"], ["AttributeCertificate.verify_time", "ACRevocationRules.__init__"],
  ["clock"], ["verify_time result"])

p("P16", "Certificate equality compares content and nothing else",
  "Two certificates are equal exactly when their issuers (key, algorithm, identifier, address), holders (key, algorithm, identifier), serial, version and issue time, revocation and delegation rules, signature and their collections of attributes and extensions are equal, the order of attributes and extensions and the difference between an absent and an empty collection not mattering. "
  "Equality is reflexive and symmetric, and a certificate equals its own export and import.",
  ["inputs"], "every pair of certificates, in particular pairs that differ in one field, in order, in repetition of attributes or in absence of parts",
  "One field missed makes different certificates equal; the pairs are unbounded.",
  ["hgaa/attcert.py"], ["AttributeCertificate.__eq__", "ACAttribute.__eq__", "ACRevocationRules.__eq__"],
  None, ["== result in both directions"])

p("P17", "The text form of a certificate shows every part of it faithfully",
  "The text export of a certificate shows version, serial and issue time, issuer, holder, every attribute with identifier, type, value and name, the validity window, delegation rules, extensions and signature with exactly the values the certificate holds, in a fixed order, each present part once, and nothing that is absent.",
  ["inputs"], "every certificate with any values and any optional parts present or absent",
  "All combinations of present parts and values; tests do not look at the text.",
  ["hgaa/attcert.py"], ["AttributeCertificate.__str__", "ACAttribute.__str__", "AttributeCertificate.export_ac"],
  None, ["text export"])

p("P18", "Certificates are issued only for correct credentials, and refused otherwise",
  "The attribute authority issues a certificate only when the request carries supported credentials naming an existing account, in any letter case, and exactly that account's password; otherwise it refuses, and the refusal tells nothing about whether the account exists. "
  "A refused request, for whatever reason, leaves no certificate behind and changes nothing, and later correct requests still succeed.",
  ["histories", "inputs"], "every sequence of requests with any combination of credential type, user name, password, key and attribute list against any set of accounts",
  "A single accepted wrong combination is a breach; there are no tests of the services.",
  ["hgaa/services/aauth.py", "hgaa/schema/aauth.py"], ["AttributeAuthority.attribute_request"],
  ["accounts", "issued certificates"], ["return value or fault", "files in the certificate directory"])

p("P19", "Issued certificates carry exactly the requested attributes assigned to the user",
  "An issued certificate carries, besides connection attributes, exactly the attributes requested by name or identifier (all of the user's if none is requested), each once, with the identifier, name, type and value assigned to that user, an assignment without value appearing without value. "
  "A request naming anything the user has not been assigned is refused as a whole. "
  "No attribute or value of another user ever appears, whatever was requested before and however assignments changed in between.",
  ["histories", "inputs"], "every assignment of attributes to users, every request list (names, identifiers, duplicates, wildcards, empty or missing entries) and every history of requests and changes",
  "The relation between assignments and request lists is unbounded; the services have no tests.",
  ["hgaa/services/aauth.py", "hgaa/schema/aauth.py"], ["AttributeAuthority.attribute_request", "AttributeAuthority._make_ac"],
  ["attribute assignments"], ["attribute set of the issued certificate"])

p("P20", "Issued certificates are signed, bound to holder and key, fresh and timed",
  "Every issued certificate verifies with the authority's own key, names the authority (identifier, name, address, key) as issuer and the authenticated account and the public key presented in the request as holder, states the moment of issue, and is valid from then for exactly the configured period with the configured revocation address. "
  "Every issue has its own serial, never used before, and what is returned, what is stored and what was signed are the same bytes.",
  ["histories", "inputs"], "every request by any user with any key at any time, in any sequence, under any configuration",
  "Uniqueness and binding are statements about all issues of a history; the services have no tests.",
  ["hgaa/services/aauth.py", "hgaa/attcert.py"], ["AttributeAuthority._make_ac", "ACInformation.__init__"],
  ["clock", "issued certificates"], ["issued certificate bytes", "stored file"])

p("P21", "Connection attributes state the facts of the connection",
  "The connection attributes of an issued certificate state the facts of that very request: the remote address and its octets or hextets and version, host, identity and user as reported, the method of authentication, the public key, its size and algorithm, the time of the request in GMT with every calendar field, the authority's own identity and key, the certificate's serial and its lifetime. "
  "Each appears exactly once under its own name and identifier with its proper type.",
  ["inputs", "histories"], "every remote address (IPv4, full, abbreviated and mapped IPv6), every instant, key and configuration",
  "All addresses and instants; a wrong calendar field shows on particular dates only.",
  ["hgaa/services/aauth.py"], ["AttributeAuthority._make_con_att_set"],
  ["clock", "request environment"], ["attributes of the issued certificate"])

p("P22", "Sessions are opened only on valid certificates of trusted issuers",
  "A session is opened only if the certificate set is not empty and every certificate in it is of the supported version and a supported format, is intact, is signed with the key registered for the attribute authority it names, which must be registered with positive trust at that time, and is within its validity window; in every other case the request is refused. "
  "A set in which every certificate meets these conditions is accepted, unless the serial of one is in use for another certificate or an overlapping request takes it meanwhile.",
  ["histories", "inputs", "schedules"], "every set of genuine, forged, tampered, expired, premature, foreign and malformed certificates, every trust registry and its changes over time, every clock value and interleaved request",
  "One accepted bad certificate among good ones is a breach; the services have no tests.",
  ["hgaa/services/pauth.py", "hgaa/attcert.py"], ["PolicyAuthority._check_cert", "PolicyAuthority.start_session"],
  ["trusted authorities", "clock", "sessions"], ["session return or fault", "database rows"])

p("P23", "Sessions never outlive certificates or maximum length, and are recorded so",
  "A session starts now and ends at the earliest of the maximum session length from now and the end of validity of each of its certificates, and the caller is told exactly this. "
  "The record kept of it has the same identifier and times, the latest issue time among its certificates, the requesting service and address, and exactly the certificates presented, as presented, each with its format, version, end of validity and hash; identifiers are never reused and earlier records never change.",
  ["histories", "inputs"], "every set of certificates in any order with any validity windows, every clock value, every history of sessions",
  "Depends on the order and windows of all certificates in the set and on earlier sessions.",
  ["hgaa/services/pauth.py", "hgaa/schema/pauth.py"], ["PolicyAuthority.start_session"],
  ["sessions", "certificates", "assignments"], ["session return", "database rows"])

p("P24", "One serial stands for one certificate for good",
  "Once a certificate has been used in a session, its serial stands for exactly that certificate: presenting it again in the same form is accepted while it is valid and shares the stored record, presenting any other certificate with the same serial is refused, and the stored certificate is never replaced or altered.",
  ["histories"], "every sequence of session requests, with certificates that share a serial in one set or across sets, across restarts of the service",
  "Needs a particular history of at least two requests; the services have no tests.",
  ["hgaa/services/pauth.py", "hgaa/schema/pauth.py"], ["PolicyAuthority.start_session"],
  ["stored certificates"], ["session return or fault", "database rows"])

p("P25", "A refused or failed session request leaves no trace",
  "A request for a session takes effect completely or not at all: whenever it is refused or fails, at whatever point and for whatever reason including a failure of the database at any statement or another request taking effect in between, no session, certificate or assignment is recorded, what was recorded before is unchanged, and later requests behave as if it had not been made.",
  ["crash_points", "schedules", "histories"], "every refusal reason and position of the bad certificate in the set, every failing database statement, every interleaving with another request at the points where the service reads its input",
  "Needs a fault at a particular statement or an interleaving at a particular point.",
  ["hgaa/services/pauth.py", "hgaa/database.py"], ["PolicyAuthority.start_session"],
  ["sessions", "certificates", "assignments"], ["database rows after every request"])

p("P26", "The authorities describe themselves and their trusted peers truthfully",
  "What an authority publishes about itself (name, identifier, address, versions, public key and its size, credential and signature types, revocation address) is what its configuration and key say and what its certificates carry. "
  "The list of attribute authorities that the policy authority publishes is exactly the registry at the time of asking, with every entry's own data.",
  ["histories", "inputs"], "every configuration and every history of registry changes",
  "Quantifies over configurations and registry histories; the services have no tests.",
  ["hgaa/services/aauth.py", "hgaa/services/pauth.py"], ["AttributeAuthority.info", "PolicyAuthority.info", "PolicyAuthority.trusted_attribute_authorities"],
  ["configuration", "trusted authorities"], ["info replies"])

p("P27", "Clients never take a failed reply for a result nor send their private key",
  "A call for the information or the trusted authorities of a service or for attributes returns the service's result exactly when the reply has success status and no fault, and fails otherwise. "
  "An attribute request carries the configured credentials, the lists asked for and the public half of the key used, never the private half; the key remembered as the last one is that of the last successful request.",
  ["histories", "inputs"], "every sequence of calls with every reply status, fault or result, with given or generated keys and given or configured credentials, and changes of service address",
  "Depends on sequences of replies; the client tests need a running service.",
  ["hgaa/clients/aauth.py", "hgaa/clients/pauth.py"], ["AttributeAuthorityClient.attribute_request", "AttributeAuthorityClient.info", "PolicyAuthorityClient.info", "PolicyAuthorityClient.trusted_attribute_authorities"],
  ["last key", "service address"], ["return value or exception", "messages sent"])

p("P28", "Configuration values come from the most specific place that sets them",
  "The value of a configuration setting is the one in the section asked for if it sets it, else the one in the default section of the same configuration, else the built-in default of the same side, else none, without regard to the letter case of setting and section as asked for. "
  "Service and client configurations never mix, an empty value counts as set, and asking changes nothing.",
  ["inputs"], "every content of both configurations, every setting, section and letter case",
  "All combinations of presence in three places times two sides; nothing tests the configuration.",
  ["hgaa/config.py"], ["get_conf"],
  ["service configuration", "client configuration"], ["returned value"])

p("P29", "Populating or wiping a service's database touches that service's data only",
  "Populating the database of a service adds exactly the given records to what that service has, or, when asked to wipe first, leaves exactly the given records, and never touches the data of another service even in a shared database. "
  "An unknown service or a record that cannot be added is reported and adds nothing (a wipe asked for may have been done), does not hinder what follows, and the same service always uses the same database.",
  ["histories", "inputs", "crash_points"], "every sequence of building, populating and wiping operations for any services in shared or separate databases",
  "Needs data of several services and failing records; nothing tests the database layer.",
  ["hgaa/database.py", "hgaa/tools.py", "hgaa/schema/__init__.py"], ["populate_db", "get_engine", "get_session", "build_database", "gen_atts"],
  ["tables of all services"], ["rows of every table after every operation"])

p("P30", "Certificates work end to end, from issue to session, and only as issued",
  "A certificate issued by an attribute authority for an authenticated user is accepted by every policy authority that trusts that authority and its key, at every instant strictly inside its validity, in every supported format, with the user's attributes unchanged; it is accepted by no policy authority that does not, at no other instant, and not after any alteration of its content or signature on the way (the label naming the signature algorithm is not protected).",
  ["histories", "schedules", "inputs"], "every history of several authorities, users, clock steps, trust changes, and an adversary that copies, alters, re-signs and replays certificates",
  "Composes both services over time with an adversary; no test runs them together.",
  ["hgaa/services/aauth.py", "hgaa/services/pauth.py", "hgaa/attcert.py"], ["AttributeAuthority.attribute_request", "PolicyAuthority.start_session", "AttributeCertificate.verify_signature"],
  ["clock", "trust registries", "certificates in circulation"], ["session return or fault"])

p("P31", "The policy authority's evaluation service decides by session certificates",
  "Asking the policy authority to evaluate a policy in a session gives the decision of the policy for the attributes in the session's certificates, and fails for unknown or expired sessions.",
  ["histories", "inputs"], "every session, policy and set of object attributes",
  "Depends on session histories and policies.",
  ["hgaa/services/pauth.py"], ["PolicyAuthority.evaluate"],
  ["sessions"], ["evaluation result"])

p("P32", "Passwords, peppers, passphrases and private keys leak nowhere",
  "No operation of the services, clients or tools, whether it succeeds, is refused or fails, shows a password (right or wrong), the pepper, the passphrase of the key file, the password of the database or a private key to anyone: not in log records of any level, replies, faults, database rows, files left behind or requests. "
  "The only flows are a user's password in the attribute request of that user's client, and a password given to the hashing command back to its console.",
  ["histories", "inputs", "crash_points"], "every history of operations on one installation, with any secrets, log levels, refusals and failing statements",
  "A leak can sit on any path, including rare error paths and debug records; no test looks at what is logged or returned besides the result.",
  ["hgaa/services/aauth.py", "hgaa/services/pauth.py", "hgaa/clients/aauth.py", "hgaa/clients/pauth.py", "hgaa/database.py", "hgaa/tools.py", "hgaa/log.py"], ["AttributeAuthority.attribute_request", "AttributeAuthorityClient.attribute_request", "get_engine", "gen_aauth_key"],
  ["secrets of an installation", "who has seen what"], ["log records", "replies and faults", "console", "database rows", "files", "requests sent"])

p("P33", "Services connect to exactly the database they are configured for",
  "Whatever operation makes a service use its database, the connection goes to the database of the configured kind with the configured account, password, host, port and name, every character as written in the configuration, each setting from the service's section or else the default section; settings that are empty are left out. "
  "Test databases are used only when asked for, and an unknown kind leads to no connection.",
  ["inputs", "histories"], "every content of the configuration for every service, with any characters in names and passwords, by every way a service connects",
  "Special characters and combinations of sections; no test looks at connections.",
  ["hgaa/database.py", "hgaa/config.py"], ["get_engine", "get_session", "populate_db"],
  ["configuration"], ["what the database driver is told"])

p("P34", "Log records from the configured level on reach exactly the configured places",
  "Every record at or above the level configured for its logger is written, in the configured format and exactly once each, to the file and console configured for its logger and for those above it, and nowhere else; a record below the level is written nowhere. "
  "A log set to be emptied at start is emptied then, any other keeps its content, and no file is made for a logger without one.",
  ["inputs", "histories"], "every configuration of the logs of services, clients, SQL and web layer, and every sequence of loggers made and records written",
  "Combinations of levels, places and parents; nothing tests logging.",
  ["hgaa/log.py"], ["make_logger", "str_to_log_level", "SERVICE_LOG", "CLIENT_LOG"],
  ["loggers", "log files"], ["content of every log file and of the console after every record"])

p("P35", "Keys and password hashes made by the tools work with the services, only as made",
  "After the tools make a key for the attribute authority, the service started with the configured key file and passphrase signs with exactly that key, and does not start with another passphrase or no key file; every key made is new. "
  "A hash made by the tools for a password lets the user in with exactly that password under the same pepper, and no hash is made twice or shows the password.",
  ["histories", "inputs"], "every history of keys and hashes made, configuration changes, accounts, restarts and log-ins, with any passwords, peppers and passphrases",
  "Needs tools, configuration and service together over time; nothing tests the tools.",
  ["hgaa/tools.py", "hgaa/services/aauth.py"], ["gen_aauth_key", "AttributeAuthority"],
  ["key files", "configuration", "accounts"], ["key the service signs with", "whether it starts", "log-in outcome"])

p("P36", "The server offers exactly the enabled services, where it is told to listen",
  "The server offers exactly the services whose configuration enables them, and listens on the host and port configured for the web layer.",
  ["inputs"], "every content of the configuration",
  "Combinations of sections and spellings; the server cannot be imported in the tests.",
  ["hgaa/handler.py"], ["application"],
  ["configuration"], ["services given to the web layer", "host and port"])

p("P37", "Serials, session identifiers, keys and salts cannot be guessed",
  "Serials of certificates, identifiers of sessions, keys made by clients and tools and salts of password hashes cannot be told, not even nearly, by someone who knows the code, the configuration, the databases, every request, the clock, the state of ordinary random generators and everything drawn before; they use their full width and none comes up again, across requests and restarts.",
  ["histories", "inputs"], "every history of requests, clock steps and restarts, compared with a second world that shares everything that can be known",
  "A property of pairs of histories; a single run shows nothing, and a test cannot tell a random number from a predictable one.",
  ["hgaa/attcert.py", "hgaa/services/pauth.py", "hgaa/clients/aauth.py", "hgaa/tools.py"], ["ACInformation", "PolicyAuthority.start_session", "AttributeAuthorityClient.attribute_request", "gen_aauth_key"],
  ["everything drawn so far, in two worlds"], ["serial, session identifier, key, hash"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
