"""Clojure expressions with what Clojure prints for them: run before the Clojure checks, so that a
mistake of the interpreter is reported as such (no answer), and not as one of the code."""
import clj
from vf import HarnessError

TABLE = r'''
(into [] (keep first) [[1] [nil] [3]]) => [1 3]
(sequence (map inc) [1 2]) => (2 3)
(into [] (mapcat identity) [[1] [2 3]]) => [1 2 3]
(into [] (comp (take 2) (map inc)) [1 2 3]) => [2 3]
(into [] (comp (drop 1) (take-while odd?)) [1 3 4 5]) => [3]
(transduce (filter odd?) + [1 2 3]) => 4
(into [] (map-indexed vector) [:a :b]) => [[0 :a] [1 :b]]
(into () [1 2 3]) => (3 2 1)
(conj '(1 2) 3) => (3 1 2)
(conj [1 2] 3) => [1 2 3]
(conj nil 1) => (1)
(cons 1 nil) => (1)
(= [1 2] '(1 2)) => true
(= 1 1.0) => false
(== 1 1.0) => true
(= {:a 1} {:a 1}) => true
(= [1] #{1}) => false
(/ 6 4) => 3/2
(/ 6 3) => 2
(/ 1.0 4) => 0.25
(quot -7 2) => -3
(rem -7 2) => -1
(mod -7 2) => 1
(str 1.0) => "1.0"
(str 1e10) => "1.0E10"
(str 123456.789) => "123456.789"
(str 1.0E-5) => "1.0E-5"
(str nil) => ""
(str :a) => ":a"
(str [1 "a" :b]) => "[1 \"a\" :b]"
(str "a" 1 \b) => "a1b"
(pr-str "a\"b") => "\"a\\\"b\""
(first nil) => nil
(rest nil) => ()
(next [1]) => nil
(rest [1]) => ()
(seq []) => nil
(seq "ab") => (\a \b)
(nth [1 2] 5 :no) => :no
(get [1 2] 1) => 2
(get {:a nil} :a 1) => nil
({:a 1} :b 2) => 2
(:a {:a 1}) => 1
(#{1 2} 3) => nil
([1 2] 0) => 1
(empty? "") => true
(count nil) => 0
(count "abc") => 3
(vec nil) => []
(subvec [1 2 3 4] 1 3) => [2 3]
(subs "abcd" 1 3) => "bc"
(clojure.string/split "a b  c" #" ") => ["a" "b" "" "c"]
(clojure.string/split "a,b,," #",") => ["a" "b"]
(clojure.string/join " " [1 nil "a"]) => "1  a"
(clojure.string/replace "a.b" "." "-") => "a-b"
(clojure.string/replace "aab" #"a+" "x") => "xb"
(clojure.string/trim "  a ") => "a"
(clojure.string/blank? " ") => true
(clojure.string/lower-case "AbC") => "abc"
(re-find #"\d+" "ab12c3") => "12"
(re-matches #"(a)(b)?" "a") => ["a" "a" nil]
(re-seq #"\w" "a b") => ("a" "b")
(clojure.set/union #{1} #{2}) => #{1 2}
(clojure.set/intersection #{1 2} #{2 3}) => #{2}
(clojure.set/difference #{1 2} #{2}) => #{1}
(map + [1 2] [10 20 30]) => (11 22)
(filter odd? (range 5)) => (1 3)
(reduce + [1 2 3]) => 6
(reduce + []) => 0
(reduce conj #{} [1 1]) => #{1}
(reduce (fn [a x] (if (> x 2) (reduced a) (+ a x))) 0 [1 2 3 4]) => 3
(reductions + [1 2 3]) => (1 3 6)
(apply max [1 3 2]) => 3
(apply str "a" ["b" "c"]) => "abc"
(partition 2 1 [1 2 3]) => ((1 2) (2 3))
(partition-all 2 [1 2 3]) => ((1 2) (3))
(partition-by odd? [1 3 2]) => ((1 3) (2))
(interleave [1 2] [:a :b]) => (1 :a 2 :b)
(interpose 0 [1 2]) => (1 0 2)
(sort [3 1 2]) => (1 2 3)
(sort-by - [3 1 2]) => (3 2 1)
(sort > [1 2]) => (2 1)
(sort-by second [[1 2] [0 2] [5 1]]) => ([5 1] [1 2] [0 2])
(frequencies [1 1 2]) => {1 2, 2 1}
(group-by odd? [1 2 3]) => {true [1 3], false [2]}
(zipmap [:a :b] [1 2]) => {:a 1, :b 2}
(merge {:a 1} {:a 2}) => {:a 2}
(merge-with + {:a 1} {:a 2}) => {:a 3}
(assoc [1 2] 0 5) => [5 2]
(assoc nil :a 1) => {:a 1}
(dissoc {:a 1} :a) => {}
(assoc-in {} [:a :b] 1) => {:a {:b 1}}
(update-in {:a {:b 1}} [:a :b] (fnil inc 0)) => {:a {:b 2}}
(get-in {:a [1 2]} [:a 1]) => 2
(let [[a & b] [1 2 3]] [a b]) => [1 (2 3)]
(let [[a b] [1]] [a b]) => [1 nil]
(let [[a [b] :as c] [1 [2]]] [a b c]) => [1 2 [1 [2]]]
(let [{:keys [a] :or {a 3}} {}] a) => 3
((fn [& {:keys [a] :or {a 3}}] a) :a nil) => nil
((fn ([a] 1) ([a & b] b)) 1 2 3) => (2 3)
(#(+ %1 %2) 1 2) => 3
(loop [i 0 acc []] (if (< i 3) (recur (inc i) (conj acc i)) acc)) => [0 1 2]
(loop [[x & r :as all] [1 2] s 0] (if (seq all) (recur r (+ s x)) s)) => 3
(for [x [1 2] y [3 4] :when (odd? (+ x y)) :let [z (* x y)]] z) => (4 6)
(for [x [1 2 3] :while (< x 3)] x) => (1 2)
(if-let [x (first [])] x :no) => :no
(when-let [x 1] (inc x)) => 2
(cond false 1 :else 2) => 2
(condp = 2 1 :a 2 :b) => :b
(case :b :a 1 (:b :c) 2 3) => 2
(and 1 nil 2) => nil
(and) => true
(or nil false) => false
(-> 5 (- 2)) => 3
(->> [1 2] (map inc) (reduce +)) => 5
(some->> nil (map inc)) => nil
(cond-> 1 true inc false dec) => 2
(try (throw (Exception. "a")) (catch Exception e (.getMessage e)) (finally nil)) => "a"
(try (/ 1 0) (catch ArithmeticException e :zero)) => :zero
(try (nth [1] 3) (catch IndexOutOfBoundsException e :out)) => :out
(try (Integer/parseInt "x") (catch NumberFormatException e :bad)) => :bad
(some #{2} [1 2]) => 2
(some odd? [2]) => nil
(every? odd? []) => true
(not-any? odd? [2]) => true
((comp inc inc) 1) => 3
((juxt inc dec) 1) => [2 0]
((partial + 1) 2) => 3
((complement odd?) 2) => true
(let [a (atom 0)] (swap! a + 2) @a) => 2
(keyword "a") => :a
(name :a) => "a"
(name 'a/b) => "b"
(symbol "a") => a
(map first {:a 1}) => (:a)
(keys {:a 1}) => (:a)
(keys {}) => nil
(distinct [1 1 2]) => (1 2)
(flatten [1 [2 [3]]]) => (1 2 3)
(take-nth 2 [1 2 3]) => (1 3)
(split-with odd? [1 2 3]) => [(1) (2 3)]
(butlast [1 2]) => (1)
(last [1 2]) => 2
(mapcat list [1 2]) => (1 2)
(concat [1] nil [2]) => (1 2)
(reverse [1 2]) => (2 1)
(vector? (map inc [1])) => false
(coll? {}) => true
(sequential? #{}) => false
(list? '(1)) => true
(instance? String "a") => true
(compare "a" "b") => -1
(compare [1 2] [1 3]) => -1
(max-key count "a" "bb") => "bb"
(format "%05d %s %.2f" 42 "a" 1.5) => "00042 a 1.50"
(.indexOf "abc" "c") => 2
(.startsWith "abc" "ab") => true
(read-string "(1 [2 \"a\"])") => (1 [2 "a"])
(let [x 1] `(a ~x ~@[2 3])) => (user/a 1 2 3)
(empty [1]) => []
(peek [1 2]) => 2
(pop [1 2]) => [1]
(disj #{1 2} 1) => #{2}
(contains? [5] 0) => true
(contains? #{nil} nil) => true
(sorted-map 3 :c 1 :a 2 :b) => {1 :a, 2 :b, 3 :c}
(keys (assoc (sorted-map-by > 1 :a 3 :c) 2 :b)) => (3 2 1)
(into (sorted-map-by #(compare (mod %1 3) (mod %2 3))) {1 :a, 3 :c, 4 :d}) => {3 :c, 1 :d}
((dissoc (sorted-map-by > 1 :a 2 :b) 1) 2) => :b
(contains? (sorted-map-by (fn [a b] (compare (count a) (count b))) "ab" 1) "xy") => true
(keys (sort-by val {:a 2 :b 1})) => (:b :a)
(vals ()) => nil
(trampoline (fn [] (fn [] 1))) => 1
(letfn [(ev [n] (if (zero? n) true (od (dec n)))) (od [n] (if (zero? n) false (ev (dec n))))] (ev 4)) => true
(clojure.math.combinatorics/permutations [1 2]) => ((1 2) (2 1))
(clojure.math.combinatorics/combinations [1 2 3] 2) => ((1 2) (1 3) (2 3))
(clojure.math.combinatorics/subsets [1 2]) => (() (1) (2) (1 2))
'''


def run(rt):
    bad = []
    for line in TABLE.strip().splitlines():
        code, want = line.rsplit(' => ', 1)
        try:
            got = clj.pr(rt.eval_text(code))
        except Exception as ex:
            got = '%s %s' % (type(ex).__name__, ex)
        if got != want:
            bad.append('%s gave %s' % (line, got))
    if bad:
        raise HarnessError('the Clojure interpreter is wrong: ' + '; '.join(bad[:10]))
