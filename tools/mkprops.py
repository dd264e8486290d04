#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
M='modsecurity/'
p('C01','URL decoding is exact for every byte string',
 'The urlDecode transformation and the URL decoder behind it return, for every byte string, exactly what one left-to-right scan gives: "+" becomes a space, "%" with two hex digits (either case) becomes that byte, and every other byte, a malformed "%" included, is kept as it is. urlDecodeUni additionally turns "%u" or "%U" with four hex digits into the UTF-8 of that code point, the full-width forms FFxx into the ASCII character xx+0x20. The reported error count is the number of "%" that could not be decoded, and decoding never panics.',
 ['inputs'],'all byte strings of any length, both decoders','the tests decode a handful of literals; truncated escapes at the end of the input, mixed-case digits and FFxx at every position are not sampled',
 ['utils/urlencode.go',M+'transforms/urldecode.go',M+'transforms/urldecode_uni.go'],
 [('scan loop','utils/urlencode.go urldecode'),('digit tables','utils/urlencode.go IsHex, UnHex')],
 observe=['utils.UrlDecode','utils.UrlDecodeUni','Trans of urlDecode and urlDecodeUni'])
p('C02','Byte transformations are exact and keep no state',
 'For every byte string removeNulls deletes exactly the NUL bytes, replaceNulls turns exactly the NUL bytes into spaces, removeWhitespace deletes exactly the space bytes, compressWhitespace replaces each run of spaces by one space, lowercase gives the lower-case string and none gives the input, every other byte kept in order. A transformation is a function of its input alone: using it before, on other values or in other transactions, never changes what it returns.',
 ['inputs','histories'],'all byte strings (valid UTF-8 or not) and all earlier uses of the same transformation object','tests run each transformation once on one ASCII literal',
 [M+'transforms/map_rune.go',M+'transforms/compress_whitespace.go',M+'transforms/none.go',M+'transforms/lowercase.go'],
 [('byte map loop',M+'transforms/map_rune.go'),('run state per call',M+'transforms/compress_whitespace.go')],
 observe=['Trans() of every transformation'])
p('C03','Operators compare exactly as their name says',
 'eq, ge, gt, le and lt accept a configured argument exactly when it is, white space around it apart, a decimal 64-bit integer, and then match a value exactly when the integer in the value (white space trimmed, 0 when it is not such an integer) stands in that relation to the configured integer, the value on the left. rx accepts exactly the valid regular expressions and matches exactly when the expression matches somewhere in the value. Matching never changes the operator, the transaction or a later result.',
 ['inputs','configurations'],'all argument strings and all values','tests sample small integers; signs, overflow, blanks, non-numbers and the pairing of name and relation for all values are open',
 [M+'operators/compare.go',M+'operators/rx.go'],
 [('comparison closures',M+'operators/compare.go NewOperatorEq/Ge/Gt/Le/Lt'),('parsing',M+'operators/compare.go newOperatorCompare, Match'),('regexp',M+'operators/rx.go')],
 observe=['NewOperator*','Operator.Match'])
p('C04','A rule matches iff some transformed target value satisfies its operator',
 'While no abort is raised, a rule matches exactly when at least one value of its targets, after all its transformations applied in the listed order, is accepted by the operator (rejected by it, when the operator is negated), so a rule whose targets have no value never matches. Every value of every target is looked at, in order, until the first hit, and each target is read once. Once fetching aborts the transaction the rule does not match.',
 ['inputs','configurations'],'all rules with any number of targets, values and transformations, any operator, negated or not','tests use one target, one value and one transformation',
 [M+'sec_rule.go'],[('match loop',M+'sec_rule.go Match'),('value pipeline',M+'sec_rule.go TransformString, TransformVariable, FetchAllTransformedVariables')],
 observe=['SecRule.Match','calls to Operator.Match, Trans.Trans and Variable.Fetch'])
p('C05','Actions run exactly when the rule and its whole chain match, once, in order',
 'The actions of a rule run if and only if the rule and every rule chained to it match, the chained rules being tried in order and only until one fails. Then all actions of the starting rule run, followed by those of each chained rule in order, every action exactly once; within a rule they run by group (metadata, data, non-disruptive, disruptive, flow) and inside a group in the order written. If any of the rules does not match, no action runs.',
 ['inputs','configurations'],'all rules, all chain lengths, all action lists of any groups','tests have at most one action per rule and no test executes a chain',
 [M+'sec_rule.go'],[('chain test',M+'sec_rule.go Do'),('grouping',M+'sec_rule.go ActionsExecute')],
 observe=['Action.Do calls'])
p('C06','Phases and rules only move forward, each rule at most once, in order',
 'In every transaction, whatever order and number of processing calls the host makes, the phase never goes back, a phase is processed at most once, and inside a phase the rules run in registration order, each at most once; without an interception or a flow action all of them run. allow continues at the phase it names (end of this phase, response headers for request, logging for no argument) and never at an earlier one, skip leaves out exactly the next rule, and processing a phase always ends.',
 ['histories','configurations','inputs'],'all sequences of Process calls on a transaction, all rule sets and all built-in actions','tests call each phase once in order; repeated or out-of-order calls and jumps at the ends of rule lists are not run',
 [M+'transaction.go',M+'sec_rule.go',M+'actions/allow.go',M+'actions/skip.go'],
 [('phase guard',M+'transaction.go ProcessPhase'),('rule cursor',M+'transaction.go Next, JumpTo, JumpToPhase'),('flow actions',M+'actions/allow.go, skip.go')],
 state=[('current phase, current rule, next rule','where the transaction stands',M+'transaction.go Transaction')],observe=['order of rule executions','CurrentPhase, CurrentRule, NextRule'])
p('C07','An interception or an abort stops the rules that would follow',
 'After a rule leaves a disruptive intervention no further rule of that phase runs, and the intervention, its status and log included, is still there for the host to read. After the transaction is aborted no rule of any later phase runs, and the disruptive result stays however often it is read. A rule that leaves no disruptive intervention never stops the rules after it.',
 ['histories','configurations'],'all rule lists, all positions of the intercepting rule, all later calls','tests check the result of one denying rule, not which rules did not run',
 [M+'transaction.go',M+'actions/deny.go'],[('loop exit',M+'transaction.go processPhase'),('abort flag',M+'transaction.go AbortWithError, AbortWithStatus, Result')],
 observe=['rule executions','Result()'])
p('C08','Traffic never changes the shared engine, rule set or rules',
 'Processing any transaction leaves the engine, its limits and configuration, the rule set and every rule, target, transformation, operator and action object in it exactly as they were, so concurrent and later transactions see the same rules. Registering rules appends each rule with a valid phase to that phase, in order, keeps what was there, and touches no other phase. Building or changing one engine never changes another.',
 ['histories','inputs','configurations'],'all transactions over all inputs, all registration sequences','no test compares the configuration before and after, or processes two transactions over one engine',
 [M+'transaction.go',M+'sec_rule.go',M+'engine.go',M+'variables/filter.go'],
 [('per-transaction state',M+'transaction.go NewTransaction'),('registration',M+'sec_rule.go AddRules'),('read-only matching',M+'variables/, operators/, transforms/')],
 observe=['fields of Engine, Limits, SecRuleSet, SecRule and of the rule parts'])
p('C09','The engine mode decides whether rules run and whether they may intervene',
 'With the engine off no rule is evaluated and no intervention arises from rules; with detection only every rule is evaluated as when on but no disruptive action (deny, block, allow, pass) runs, all others do; with the engine on both happen. Switching the mode, by call or by directive, selects exactly that mode and a new engine is on.',
 ['configurations','inputs','histories'],'all modes, rule sets and transactions','tests set the mode and check the two flags only',
 [M+'engine.go',M+'transaction.go',M+'sec_rule.go','seclang/rules.go'],[('flags',M+'engine.go Enable, NewEngine'),('guard',M+'transaction.go processPhase'),('disruptive filter',M+'sec_rule.go ActionsExecute'),('directive','seclang/rules.go DireRuleEngine')],
 observe=['rule evaluation','Action.Do calls'])
p('C10','A body buffer returns exactly the accepted bytes and keeps its limits',
 'Writes to a body buffer are accepted until the total would pass its total limit or reading has begun; a refused write changes nothing, and the length is always the number of accepted bytes. Reading from the start gives exactly the accepted bytes in order, however they were split over writes and whether they stayed in memory or went to the temporary file; asking for the in-memory form gives exactly the whole content, or, when it went to a file, an error and the first in-memory-limit bytes. No operation panics.',
 ['inputs','histories','configurations','fault_sequences'],'all sequences of writes of any sizes, all limits, memory or file, file creation failures','tests write two aligned chunks that never straddle the limit',
 [M+'buffer.go'],[('spill',M+'buffer.go Write'),('rewind once',M+'buffer.go initRead, Read, WriteTo, Seek'),('in-memory form',M+'buffer.go String, Bytes')],
 state=[('length, memory part, file, read flag','buffer content and mode',M+'buffer.go buffer')],observe=['AppendRequestBody','Read','String','Bytes','Len','Close'])
p('C11','Selectors pick exactly the included and not excluded entries',
 'A collection target with selectors returns every value of exactly those entries whose name is selected (no include given, or equal to an included name, or matched by an included /regex/) and not excluded (equal to an excluded name or matched by an excluded /regex/); its names form returns exactly those names, once each. A combined target returns the results of its parts in order and passes selectors to every part; a counted target returns the decimal number of values the target returns. A selector that is an invalid regex is refused.',
 ['inputs','configurations'],'all maps, names, values and selector lists','tests use four one-value entries and one selector of each kind',
 [M+'variables/filter.go',M+'variables/merge.go',M+'variables/count.go','utils/strings.go'],
 [('filter',M+'variables/filter.go FetchWithNames, Fetch, Names, Include, Exclude'),('merge',M+'variables/merge.go'),('count',M+'variables/count.go'),('membership','utils/strings.go')],
 observe=['Variable.Fetch'])
p('C12','Request and response targets report exactly what the host supplied',
 'Each non-body target returns exactly the datum of the transaction it is named after: method, protocol, raw query string, path, last path component, URI without scheme, user and host, client address, header values and names, query arguments and names, response status, protocol, headers, content type (the media type, application/octet-stream by default) and content length (0 by default). A target whose datum was not supplied returns no value, and reading a target never panics nor changes the transaction.',
 ['inputs'],'all URLs, headers, methods, protocols, addresses and status codes, and data not supplied','tests read each target once for one request',
 [M+'variables/'+f for f in ('query_string.go','remote_addr.go','request_basename.go','request_filename.go','request_headers.go','request_headers_names.go','request_method.go','request_protocol.go','request_uri.go','args_gets.go','args_get_names.go','response_status.go','response_protocol.go','response_headers.go','response_headers_names.go','response_content_type.go','response_content_length.go')],
 [('Fetch methods',M+'variables/*.go'),('storing of the supplied data',M+'transaction.go Process*')],observe=['Variable.Fetch'])
p('C13','Body targets read only permitted bodies, and over-limit bodies abort',
 'Request body targets return values only for POST, PUT or PATCH with body access on, a non-empty body and a matching content type, and then exactly the body or its parsed arguments; the response body target returns exactly the body when response access is on and it is not empty. A body too large for memory aborts the transaction with status 413 (500 for responses) instead of being matched in part. Reading such targets repeatedly, in any order, gives the same answers, never panics, and a malformed body is remembered as a body error and not as arguments.',
 ['inputs','configurations','histories'],'all methods, content types, bodies, access settings and orders of reading','tests read well-formed small bodies once',
 [M+'variables/request_body.go',M+'variables/request_body_parser.go',M+'variables/response_body.go',M+'variables/args_posts.go',M+'variables/args_post_names.go',M+'transaction.go'],
 [('gate',M+'variables/request_body_parser.go requestBodyParse'),('cache',M+'variables/request_body_parser.go VariableCache use'),('abort',M+'transaction.go AbortWithError')],
 observe=['Variable.Fetch','Transaction.Abort, Result(), RequestBodyError'])
p('C14','SecLang lexing is total and exact',
 'For every input the reader of SecLang text ends without panic and takes words, quoted strings with their escapes, unquoted arguments, blank space and continuation lines exactly as the lexical rules say: a quoted string ends at the next unescaped quote of its kind, an escaped character stands for its escape or itself, an escaped line end for a newline, and an unescaped line end or the end of input inside quotes is an error. What it returns depends only on the text at the current position, and the position then is right after what it took.',
 ['inputs'],'all byte strings','tests lex seven literals; malformed, truncated and nested forms are not covered',
 ['seclang/parser/scanner.go','seclang/parser/utils.go'],[('string scanner','seclang/parser/scanner.go readString, ReadString, SkipBlank'),('words','seclang/parser/scanner.go ReadWord'),('lines','seclang/parser/scanner.go incrementLineNumber')],
 observe=['Scanner.ReadString','Scanner.ReadWord','Scanner.ReadDirective'])
p('C15','SecRule text parses to exactly the targets, operator and actions written',
 'A target list yields, in order, one entry per part separated by "|" or ",", with "!" as exclusion, "&" as count, the text after the first "." or ":" as selector, and the named target; an operator string yields the negation, the named operator and its argument, or a regular expression when no operator is named; an action list yields id, phase (number 1 to 5 or alias), chain, severity, transformations and other actions in order with their arguments. Unknown names, empty parts, and out-of-range or non-numeric numbers are errors, never a rule that differs from what was written.',
 ['inputs','programs'],'all target, operator and action strings','tests parse fewer than ten literals and no malformed ones',
 ['seclang/parser/scanner.go','seclang/parser/utils.go','seclang/parser/seclang_token.go'],
 [('targets','seclang/parser/scanner.go ReadVariables, utils.go splitMulti'),('operators','scanner.go ReadOperator'),('actions','scanner.go ReadActions, processAction, parseAction, actionProcessors')],
 observe=['ReadVariables','ReadOperator','ReadActions'])
p('C16','Every SecLang name compiles to the thing it names, or is refused',
 'Each documented target, operator, transformation, action and directive name compiles to the engine object of that same name carrying the written argument, selector and negation; a compiled rule holds all of the targets, transformations (in order), actions (in order), metadata, id and phase that were written, and none else. A name without an implementation is an error, and nothing written is silently dropped.',
 ['programs','configurations'],'all names in the tables and all parsed rules','tests compile single rules with a few of the names',
 ['seclang/variable.go','seclang/operators.go','seclang/trans.go','seclang/actions.go','seclang/sec_rule.go','seclang/rules.go','seclang/parser/seclang_token.go','seclang/parser/seclang.go'],
 [('factory tables','seclang/variable.go, operators.go, trans.go, actions.go'),('token tables','seclang/parser/seclang_token.go'),('assembly','seclang/sec_rule.go FromSecLang')],
 observe=['FromSecLang','DireRule.Execute'])
p('C17','Directives take effect in order and chained rules attach to their starter',
 'Loading text gives, in order, one effective directive for each directive written, except that each rule following a rule with chain becomes, in order, part of the chain begun by the first such rule, the chain ending with the first rule without chain. Loading is all or nothing: an error anywhere yields an error and no rule set, and executing the set applies each directive to the given engine in order.',
 ['programs','inputs'],'all directive sequences and chain patterns','one test has one chain of two',
 ['seclang/rule_set.go','seclang/sec_rule.go'],[('chain assembly','seclang/rule_set.go AddSecLangString'),('execution','seclang/rule_set.go Execute')],
 observe=['DireSet contents','Engine after Execute'])
p('C18','Cookie targets report every cookie of every Cookie header',
 'For all Cookie header lines, the cookie targets see exactly the pairs got by splitting each line at ";", trimming white space and skipping empty pieces: the name is the text before the first "=" and the value the text after it (empty when there is none), repeated names keeping all their values in order. Nothing is invented, dropped or attributed to another name, and without a Cookie header there are no values.',
 ['inputs'],'all header maps, any number of lines and pieces','tests parse two well-formed headers',
 [M+'variables/request_cookies.go',M+'variables/request_cookies_names.go'],[('split loops',M+'variables/request_cookies.go readCookie')],
 observe=['REQUEST_COOKIES and REQUEST_COOKIES_NAMES values'])
p('C19','Interventions carry the right status and log and are handed over once',
 'deny makes the intervention disruptive with the status already set by the rules (100 to 599) or 403, keeps a status set before it, and logs the status it set; pass clears the pending intervention; status and log touch neither the disruptive flag nor the phase; block does what the default actions do. Reading the result returns the pending intervention and, unless the transaction is aborted, leaves a clean one (200, not disruptive, no log) behind, so nothing is reported twice or lost; each log line names client, port and phase.',
 ['inputs','histories'],'all transaction states, status values and sequences of actions and reads','tests run each action once on a fresh transaction',
 [M+'transaction.go',M+'actions/deny.go',M+'actions/pass.go',M+'actions/status.go',M+'actions/log.go',M+'actions/block.go'],
 [('intervention',M+'transaction.go Intervention, Result, ResetIntervention, Logf'),('actions',M+'actions/*.go')],
 observe=['Result()','Intervention()'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
print(len(P))
