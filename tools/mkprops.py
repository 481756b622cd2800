#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))

p("C01", "Building logits keeps every score under its own token id",
  "Building a set of logits from a sequence of scores that contains no NaN yields exactly one entry per score, in order, whose token id is the score's position and whose score is unchanged, marked neither sorted nor normalised. If the sequence contains NaN, building fails and names the position of the first NaN.",
  ["inputs"], "all finite sequences of fewer than 2^32 32-bit floats",
  "The tests build from a handful of five-element arrays; the claim is about every length and every position of NaN, infinities included.",
  ["src/types.rs"], [("try_from_iter", "src/types.rs"), ("TryFrom<Vec<L>>", "src/types.rs")], observe=["Logits as a Vec of entries", "LogitsError::InvalidLogit"])
p("C02", "Top-k construction keeps exactly the k best finite scores",
  "Building logits with a limit k keeps exactly min(k, number of finite scores) entries: the largest finite scores, in non-increasing order, each with the position of its score as token id and no position twice (equal scores may come in any order). NaN and infinite scores never appear, k of 0 gives an empty result, and no k or sequence makes it fail.",
  ["inputs"], "all sequences of fewer than 2^32 floats and every limit k",
  "The tests use one sequence with distinct values; ties, infinities, NaN and k around the length need a quantified statement over an insertion loop.",
  ["src/types.rs"], [("bounded insertion into a sorted vector", "src/types.rs try_from_iter_top_k")])
p("C03", "Sorted and normalised markers are never stale",
  "After any sequence of library operations on a set of logits (construction, sorting, normalising, any built-in sampler with finite parameters), if the set is marked sorted then its scores are in non-increasing order, and if it is marked normalised then its probabilities are the ones normalising its current scores would give. Samplers that change scores, drop tokens or reorder tokens clear the marker they invalidate.",
  ["inputs", "histories"], "all logits whose scores are finite or -infinity with a finite maximum, all sampler parameters, all orders of operations",
  "A stale marker only shows when a later sampler trusts it; the tests exercise few sampler pairs, and none where a marker is set and then invalidated on every path.",
  ["src/types.rs", "src/samplers"], [("set_sorted / set_softmax at the end of each sampler", "src/samplers/*.rs"), ("early returns on the markers", "src/types.rs ensure_sorted, ensure_softmax")],
  state=[dict(name="sorted marker", meaning="scores are in non-increasing order", where="src/types.rs"), dict(name="normalised marker", meaning="probabilities match the scores", where="src/types.rs")])
p("C04", "Normalising yields a probability distribution in score order",
  "Normalising any non-empty set of logits whose scores are finite or -infinity, with at least one finite, sorts it by non-increasing score (equal scores keep their order) and gives each token the probability exp(score - max) divided by the sum of those terms, so that every probability is in [0, 1] and probabilities never increase along the list. Tokens and scores are only reordered: none is lost, added or changed.",
  ["inputs"], "all sets of logits with non-NaN scores and a finite maximum, marked or unmarked consistently",
  "The tests compare a few fixed arrays; the range, order and permutation claims are over all lengths and values.",
  ["src/types.rs"], [("ensure_sorted", "src/types.rs"), ("ensure_softmax", "src/types.rs")])
p("C05", "Samplers never invent, duplicate or relabel tokens",
  "Running a filtering sampler (top-k, top-p, min-p, top-a, tail free, locally typical, either Mirostat) leaves a sub-collection of the tokens it was given, each with its original id and score and none repeated. Running any other sampler leaves every token in the set exactly once under its own id, and only the score-modifying samplers change scores.",
  ["inputs", "configurations"], "all sets of logits, all sampler parameters, all resources",
  "The tests check the surviving ids of a few fixed arrays; duplication, relabelling or score corruption on other inputs is not observed.",
  ["src/samplers", "src/types.rs"], [("truncation of the sorted list", "src/samplers/{top_k,top_p,min_p,top_a,tail_free,mirostat}.rs"), ("rebuild of the list", "src/samplers/locally_typical.rs")])
p("C06", "Filters never empty the list and honour min_keep",
  "A filtering sampler given a non-empty set of logits never leaves it empty as long as its min_keep is at least 1, and a sampler with a min_keep setting leaves at least min_keep tokens, or all of them when there are fewer. Either Mirostat sampler always leaves at least one token.",
  ["inputs", "configurations"], "all non-empty sets of logits with a finite maximum and all parameters, NaN parameters included",
  "The tests use min_keep 0 or 1 almost everywhere and never a min_keep that decides the outcome.",
  ["src/samplers"], [("the min_keep clause of each cut", "src/samplers/*.rs")])
p("C07", "Top-k and top-p keep exactly the documented prefix",
  "Top-k leaves exactly the max(k, min_keep) highest-scored tokens (all of them if there are fewer), highest first. Top-p leaves exactly the shortest prefix of the tokens in order of probability whose probabilities add up to at least p and that has at least min_keep tokens, and all of them when no prefix does.",
  ["inputs", "configurations"], "all sets of logits with a finite maximum, all k, p and min_keep",
  "The tests pin the result on four-element arrays; the cut index is a statement about every prefix sum.",
  ["src/samplers/top_k.rs", "src/samplers/top_p.rs"], [("truncate at k", "src/samplers/top_k.rs"), ("try_fold over the cumulative sum", "src/samplers/top_p.rs")])
p("C08", "Min-p and top-a cut at the first token below the threshold",
  "Min-p keeps the tokens in order of probability up to, not including, the first one at position max(1, min_keep) or later whose probability is below p times the highest probability; top-a does the same with the threshold a1 * (highest probability)^a2. A p of 0, or an a1 or a2 of 0, disables the filter and leaves the logits as they were.",
  ["inputs", "configurations"], "all sets of logits with a finite maximum and all parameters",
  "The tests use a single array per sampler and min_keep 0; the threshold must be exact for every position.",
  ["src/samplers/min_p.rs", "src/samplers/top_a.rs"], [("skip / find over the probabilities", "src/samplers/min_p.rs, src/samplers/top_a.rs")])
p("C09", "Tail free sampling cuts where the curvature mass exceeds z",
  "Tail free sampling with z below 1 and at least three tokens keeps, in order of probability, the first i tokens, where i is the first position not below min_keep at which the running sum of the normalised absolute second differences of the probabilities exceeds z, and keeps everything if there is no such position. With z of 1 or more, or at most two tokens, it leaves the logits as they were.",
  ["inputs", "configurations"], "all sets of logits with a finite maximum, all z and min_keep",
  "The tests cover three z values on one array; off-by-one errors in the differences or the cut show only on other shapes.",
  ["src/samplers/tail_free.rs"], [("first and second differences, cumulative cut", "src/samplers/tail_free.rs")])
p("C10", "Locally typical sampling keeps the most typical tokens first",
  "Locally typical sampling orders tokens by how far their surprise (minus log probability) lies from the entropy of the distribution, closest first, and keeps the shortest such prefix that has at least min_keep tokens and whose probability mass exceeds p, or all tokens when none does. The result is in that order and marked neither sorted nor normalised.",
  ["inputs", "configurations"], "all non-empty sets of logits with a finite maximum, all p and min_keep",
  "The tests check two arrays; the order by typicality and the cut depend on every probability at once.",
  ["src/samplers/locally_typical.rs"], [("entropy fold, sort by distance, cumulative cut", "src/samplers/locally_typical.rs")])
p("C11", "Greedy sampling picks a token with the highest score",
  "Greedy sampling reports a token of the set whose score no other non-NaN score exceeds, whether or not the set is marked sorted, ignores NaN scores in an unsorted set, and reports no token for an empty set. It changes nothing in the logits.",
  ["inputs", "histories"], "all sets of logits, marked consistently, any earlier use of the sampler",
  "The tests run greedy on one ascending and one descending array.",
  ["src/samplers/greedy.rs"], [("first of a sorted list / maximum of an unsorted one", "src/samplers/greedy.rs")])
p("C12", "Random selection draws a surviving token by its probability",
  "The random distribution sampler draws exactly once from the weighted distribution whose weights are the probabilities of the tokens present, in order, and reports the id of the token at the drawn position. For an empty set it reports no token and does not touch the random number generator.",
  ["inputs", "schedules"], "all sets of logits with a finite maximum and every outcome of the random number generator",
  "The tests use one fixed seed; the pairing of drawn position, weight and id must hold for every draw.",
  ["src/samplers/rand_distrib.rs"], [("WeightedIndex over the probabilities", "src/samplers/rand_distrib.rs")])
p("C13", "Mirostat truncates, draws and adapts mu as documented",
  "Mirostat v2 keeps the tokens in order of probability before the first whose surprise in bits exceeds mu (at least one), and Mirostat v1 keeps the number of tokens its Zipf estimate gives (at least one); both renormalise the survivors, draw one of them, report it, and lower mu by eta times the difference between the surprise of the drawn token and tau. If nothing is drawn, mu stays as it was and no token is reported.",
  ["inputs", "configurations", "histories"], "all non-empty sets of logits with a finite maximum, all parameters, all draws, repeated use",
  "The tests have two fixed seeds; the feedback through mu is a property of every step of a history.",
  ["src/samplers/mirostat.rs"], [("surprise cut and mu update", "src/samplers/mirostat.rs")], state=[dict(name="mu", meaning="current surprise limit", where="src/samplers/mirostat.rs")])
p("C14", "Bias and repetition penalties touch exactly the targeted tokens",
  "Flat bias adds to each token's score the bias of the first list entry with its id and leaves other tokens alone; the repetition penalty multiplies non-positive and divides positive scores of exactly the tokens among the last last_n tokens; the frequency/presence penalty subtracts count * frequency + presence from exactly those tokens, where count is how often the token occurs among the last last_n tokens. Disabled penalties (last_n 0, a penalty of at most 1, both penalties 0) change nothing.",
  ["inputs", "configurations", "histories"], "all sets of logits, all token histories, all parameters",
  "The tests use short histories that last_n covers entirely or by a fixed amount; window boundaries, repeated ids and duplicate bias entries are not covered.",
  ["src/samplers/flat_bias.rs", "src/samplers/repetition.rs", "src/samplers/freq_presence.rs"], [("window slice of the history", "src/samplers/repetition.rs, freq_presence.rs"), ("first matching bias", "src/samplers/flat_bias.rs")])
p("C15", "Sequence repetition penalises exactly the continuation tokens",
  "The sequence repetition sampler subtracts flat + stacking * length from the score of exactly those tokens that would continue a repeat of the last at least min_length tokens found earlier within the last last_n tokens, matched with at most tolerance gaps of at most max_merge tokens each, where length is the longest matched sequence including the continuation, and the continuation may not be the very last token of the history. With min_length below 2, last_n below min_length, a history shorter than twice min_length or both penalties 0 it changes nothing.",
  ["inputs", "configurations", "histories"], "all token histories, all parameters, all sets of logits",
  "The tests exercise a single history; which tokens are penalised depends on a search over all pairs of positions.",
  ["src/samplers/sequence_repetition.rs"], [("fuzzy_match and find_seqs", "src/samplers/sequence_repetition.rs")])
p("C16", "Temperature divides every score and 0 leaves the logits alone",
  "The temperature sampler replaces every score by score / temperature and changes no token, order or count; a temperature of 0 (either sign) leaves the logits exactly as they were, markers included.",
  ["inputs", "configurations"], "all sets of logits and all temperatures",
  "The tests run one temperature on one array.",
  ["src/samplers/temperature.rs"], [("for_each division", "src/samplers/temperature.rs")])
p("C17", "A chain runs its samplers in order and reports the last one's token",
  "A sampler chain runs each of its samplers once, in the order they were added, each on the result of the one before, stops with the first error, and then reports the token of its last sampler (none for an empty chain or after a run that failed in its first sampler); adding a sampler forgets the token reported before. A prepend request, a sample request and a token request reach the wrapped sampler unchanged through boxed, shared and configurable wrappers.",
  ["inputs", "configurations", "histories"], "all chains of all samplers, built-in or user-defined, all call histories",
  "The tests chain two built-in samplers once; order, errors in the middle and prepend calls are not exercised.",
  ["src/chain.rs", "src/types.rs", "src/configure/building.rs"], [("try_fold over the samplers", "src/chain.rs"), ("forwarding implementations", "src/types.rs, src/configure/building.rs")])
p("C18", "A missing resource is reported and nothing is sampled",
  "When a sampler needs a resource that is not provided (random numbers for random selection and Mirostat, the token history for the repetition, frequency/presence and sequence penalties), it fails with a missing-resource error that names it, reports no token, and leaves every token and score as it was except for sorting, normalising and a filter's own truncation. The supplied resource holder calls the given function exactly once when it has the resource and never when it does not.",
  ["inputs", "configurations", "fault_sequences"], "all samplers, all sets of logits, every combination of present and absent resources",
  "No test runs a sampler without the resource it needs.",
  ["src/resource.rs", "src/samplers"], [("default methods of the resource trait, map_or_else", "src/resource.rs"), ("propagation with ?", "src/samplers/*.rs")])
p("C19", "Setting an option changes exactly that option",
  "Setting an option of a built-in sampler by key to a value of its type stores that value, so that reading the option back returns it (converted to the option's width), and changes no other option, except that setting tau of a Mirostat sampler also sets mu to twice tau. A wrong type, an unconvertible value, an unknown or an ambiguous key fails and changes nothing.",
  ["inputs", "configurations", "histories"], "all built-in samplers, all keys, all values, all earlier settings",
  "The tests set a few options of three samplers; a swapped pair of table rows in any other sampler goes unnoticed.",
  ["src/configure/configurable.rs", "src/configure/metadata.rs", "src/samplers"], [("option tables zipped with metadata", "src/samplers/*.rs"), ("set_option / get_option / post_set_option", "src/configure/configurable.rs")])
p("C20", "Option keys and configuration strings resolve as documented",
  "A key refers to the option with exactly that name or else to the only option whose name starts with it; a key that starts several names and equals none is reported as ambiguous, and one that starts none as unknown. A configuration string of colon-separated key=value parts sets its options left to right, ignoring surrounding whitespace and empty parts, a part without '=' names the only option, and the first part that fails stops with its error, leaving the earlier parts applied. Every built-in sampler has a name no other built-in sampler has, and lists each option once.",
  ["inputs", "configurations"], "all option tables, all keys, all strings",
  "The tests parse a few well-formed strings and no ambiguous or partially failing ones.",
  ["src/configure/metadata.rs", "src/configure/configurable.rs", "src/configure/value.rs"], [("find_option_definition", "src/configure/metadata.rs"), ("configure", "src/configure/configurable.rs"), ("parse_value", "src/configure/value.rs")])
p("C21", "The chain builder keeps slots in order and configures only the named one",
  "A built chain contains, slot by slot in the order the slots were added, the product of a static slot, the sampler of a single slot if it has one, and all samplers of a chain slot in the order they were configured. Configuring a slot changes only the first slot with that name: a single slot's sampler is updated or created, a chain slot grows by one fresh sampler, and a static slot, an unknown name or a failing configuration string is an error that adds no sampler; ensuring presence fills an empty single or chain slot with one default sampler and changes nothing else.",
  ["inputs", "configurations", "histories"], "all builders, all slot kinds, all histories of configure calls",
  "The tests build one chain with one slot of each kind; duplicate names, repeated and failing configuration are not covered.",
  ["src/configure/building.rs"], [("configure, ensure_present, into_chain", "src/configure/building.rs")])
p("C22", "No input makes a sampler panic or overflow",
  "Constructing logits and running any built-in sampler, chain or option setter terminates without panic, arithmetic overflow or out-of-range access for every set of logits, history and parameter, including empty sets, NaN scores, infinite or NaN parameters and extreme integer settings; where no sensible result exists it returns an error.",
  ["inputs", "configurations"], "all inputs of up to 2^31 - 1 tokens, all parameters, all resources; a set the caller marks normalised is taken to hold probabilities between 0 and 1",
  "The tests use small well-behaved arrays; panics hide at the extremes of lengths and parameters.",
  ["src/types.rs", "src/samplers", "src/chain.rs", "src/configure"], [("early returns, saturating arithmetic, bounds of slices", "src/samplers/*.rs, src/types.rs")])
p("C23", "A selector never reports a token from an earlier call",
  "After greedy, random or Mirostat sampling returns, successfully or not, the token it reports is one drawn by that very call from the tokens then in the set, or none: a call that fails, or that gets an empty set, leaves no token reported.",
  ["inputs", "histories", "fault_sequences"], "all histories of calls on one sampler with changing logits and resources",
  "No test reuses a selector after a failing or empty call.",
  ["src/samplers/greedy.rs", "src/samplers/rand_distrib.rs", "src/samplers/mirostat.rs"], [("token cleared at entry", "src/samplers/*.rs")], state=[dict(name="reported token", meaning="token of the last call", where="src/samplers/{greedy,rand_distrib,mirostat}.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P), max(len(x["title"]) for x in P))
