"""The sentences of the existing tests of the extractor, with the parses that their expected results imply."""


def s(text):
    """'word/POS/dep/head[/ENT]' separated by blanks; heads are words (or positions, as #3)."""
    rows = [x.split('|') for x in text.split()]
    words = [r[0] for r in rows]
    out = []
    for i, r in enumerate(rows):
        head = i if r[2] == 'ROOT' else int(r[3][1:]) if r[3].startswith('#') else words.index(r[3])
        out.append((r[0], r[0].lower(), r[1], r[2], head, r[4] if len(r) > 4 else '', True))
    return out


GOLDEN = [
    (s('Some|DET|det|subspecies subspecies|NOUN|nsubj|be of|ADP|prep|subspecies mosquito|NOUN|pobj|of might|VERB|aux|be be|VERB|ROOT '
       '1st|ADJ|acomp|be to|PART|aux|wiped be|VERB|auxpass|wiped genetically|ADV|advmod|wiped wiped|VERB|xcomp|1st out|PART|prt|wiped .|PUNCT|punct|be'),
     '(might (be (some (of subspecies mosquito)) (1st (to (be (genetically (wiped out)))))))',
     '(might (be (some (of subspecies mosquito)) (1st (to (be (genetically (wiped out)))))))',
     '(might_be (some (of subspecies mosquito)) (1st (to_be_genetically wiped_out)))',
     '(might_be (some (of subspecies mosquito)) (1st (to_be_genetically wiped_out)))'),
    (s('Telmo|PROPN|nsubj|going is|VERB|aux|going going|VERB|ROOT to|ADP|prep|going the|DET|det|gym gym|NOUN|pobj|to .|PUNCT|punct|going'),
     '(is (going telmo (to (the gym))))',
     '(is (going telmo (to (the gym))))',
     '(is_going telmo (to gym))',
     '(is_going_to telmo gym)'),
    (s('Due|ADP|prep|influenced to|ADP|pcomp|Due its|ADJ|poss|location location|NOUN|pobj|Due in|ADP|prep|location the|DET|det|Plain '
       'European|PROPN|compound|Plain|LOC Plain|PROPN|pobj|in|LOC ,|PUNCT|punct|influenced Berlin|PROPN|nsubjpass|influenced|GPE is|VERB|auxpass|influenced '
       'influenced|VERB|ROOT by|ADP|agent|influenced a|DET|det|climate temperate|ADJ|amod|climate seasonal|ADJ|amod|climate climate|NOUN|pobj|by .|PUNCT|punct|influenced'),
     '(is (by (influenced ((due to) (its (in location (the (european plain))))) berlin) (a (temperate (seasonal climate)))))',
     '(is (by (influenced ((due to) (its (in location (the european_plain)))) berlin) (a (temperate (seasonal climate)))))',
     '(is_by (influenced (due_to (its (in location european_plain))) berlin) (temperate (seasonal climate)))',
     '((influenced_due_to is_by) (its (in location european_plain)) berlin (temperate (seasonal climate)))'),
    (s('Koikuchi|PROPN|compound|shoyu shoyu|NOUN|nsubj|is ,|PUNCT|punct|shoyu best|ADV|advmod|known known|VERB|acl|shoyu as|ADP|prep|known soy|NOUN|compound|sauce '
       'sauce|NOUN|pobj|as ,|PUNCT|punct|shoyu is|VERB|ROOT the|DET|det|mother mother|NOUN|attr|is of|ADP|prep|mother all|DET|det|sauces sauces|NOUN|pobj|of '
       'in|ADP|prep|mother Japan|PROPN|pobj|in|GPE .|PUNCT|punct|is'),
     '(is ((koikuchi shoyu) (best (known (as (soy sauce))))) (the (of (in mother japan) (all sauces))))',
     '(is (koikuchi_shoyu (best (known (as soy_sauce)))) (the (of (in mother japan) (all sauces))))',
     '(is (koikuchi_shoyu (best_known_as soy_sauce)) (of (in mother japan) (all sauces)))',
     '((is of) (koikuchi_shoyu (best_known_as soy_sauce)) (in mother japan) (all sauces))'),
    (s('Sweden|PROPN|nsubj|is|GPE is|VERB|ROOT the|DET|det|country third|ADV|advmod|largest -|PUNCT|punct|largest largest|ADJ|amod|country country|NOUN|attr|is '
       'in|ADP|prep|country the|DET|det|Union European|PROPN|compound|Union|ORG Union|PROPN|pobj|in|ORG by|ADP|prep|country area|NOUN|pobj|by .|PUNCT|punct|is'),
     '(is sweden (the (third (largest (in (by country area) (the (european union)))))))',
     '(is sweden (the (third (largest (in (by country area) (the european_union))))))',
     '(is sweden (third (largest (in (by country area) european_union))))',
     '(is_third sweden (largest (in (by country area) european_union)))'),
    (s('Sweden|PROPN|nsubj|wants|GPE wants|VERB|ROOT to|PART|aux|fight fight|VERB|xcomp|wants our|ADJ|poss|culture disposable|ADJ|amod|culture culture|NOUN|dobj|fight '
       'with|ADP|prep|fight tax|NOUN|compound|breaks breaks|NOUN|pobj|with for|ADP|prep|breaks repairing|VERB|pcomp|for old|ADJ|amod|stuff stuff|NOUN|dobj|repairing .|PUNCT|punct|wants'),
     '(wants sweden (to (fight (our (disposable culture)) (with ((for (repairing (old stuff))) (tax breaks))))))',
     '(wants sweden (to (fight (our (disposable culture)) (with ((for (repairing (old stuff))) tax_breaks)))))',
     '(wants sweden (to_fight (our (disposable culture)) (with ((for_repairing (old stuff)) tax_breaks))))',
     '((wants_to_fight with) sweden (our (disposable culture)) ((for_repairing (old stuff)) tax_breaks))'),
    (s('OpenCola|PROPN|nsubj|is is|VERB|ROOT a|DET|det|brand brand|NOUN|attr|is of|ADP|prep|brand open|ADJ|amod|source -|PUNCT|punct|source source|NOUN|compound|cola '
       'cola|NOUN|pobj|of ,|PUNCT|punct|cola where|ADV|advmod|are the|DET|det|instructions instructions|NOUN|nsubj|are for|ADP|prep|instructions making|VERB|pcomp|for '
       'it|PRON|nsubj|are are|VERB|relcl|cola freely|ADV|advmod|available available|ADJ|acomp|are and|CCONJ|cc|available modifiable|ADJ|conj|available .|PUNCT|punct|is'),
     '(is opencola (a (of brand (((open source) cola) (where (are (the ((for making) instructions)) it (freely (and (available modifiable)))))))))',
     '(is opencola (a (of brand (((open source) cola) (where (are (the ((for making) instructions)) it (freely (and (available modifiable)))))))))',
     '(is opencola (of brand (((open source) cola) (where_are (for_making instructions) it (freely (and (available modifiable)))))))',
     '((is of) opencola brand ((open source cola) (where_are (for_making instructions) it (freely (and (available modifiable))))))'),
    (s('2016|NUM|nummod|Prize Nobel|PROPN|compound|Prize|EVENT Prize|PROPN|nsubjpass|Awarded|EVENT in|ADP|prep|Prize Physiology|PROPN|pobj|in or|CCONJ|cc|Physiology '
       'Medicine|PROPN|conj|Physiology Is|VERB|auxpass|Awarded Awarded|VERB|ROOT to|ADP|prep|Awarded Yoshinori|PROPN|compound|Ohsumi|PERSON Ohsumi|PROPN|pobj|to|PERSON .|PUNCT|punct|Awarded'),
     '(is (awarded (2016 (in (nobel prize) (or (physiology medicine)))) (to (yoshinori ohsumi))))',
     '(is (awarded (2016 (in nobel_prize (or (physiology medicine)))) (to yoshinori_ohsumi)))',
     '(is_awarded (2016 (in nobel_prize (or (physiology medicine)))) (to yoshinori_ohsumi))',
     '(is_awarded_to (2016 (in nobel_prize (or (physiology medicine)))) yoshinori_ohsumi)'),
]
