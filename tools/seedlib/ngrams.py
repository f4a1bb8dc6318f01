SEEDS=[
dict(id='C12-repeat', property='C12', needs='two equal windows in a row (a word repeated more than n times)', breaks='repeated windows are counted once',
 file='ngrams.rs', old='''    let mut gram_window = CircularQueue::with_capacity(self.n);
    for w in words.into_iter() {''', new='''    let mut gram_window = CircularQueue::with_capacity(self.n);
    let mut previous = String::new();
    for w in words.into_iter() {''', more=[('ngrams.rs','''        self.insert(key);
''','''        if key != previous {
          previous = key.clone();
          self.insert(key);
        }
''')],
 demo='''use llamapun::ngrams::Ngrams;
fn main() {
  let mut g = Ngrams { n: 2, ..Default::default() };
  g.record_words(vec!["very", "very", "very", "big"]);
  assert_eq!(g.get("very very"), 2);
  assert_eq!(g.get("very big"), 1);
}
'''),
dict(id='C14-last', property='C14', needs='re-inserting the most recently added word', breaks='the counter advances although nothing new was added, leaving gaps in the numbering',
 file='ngrams.rs', old='''    if *word_index > self.index {''', new='''    if *word_index >= self.index {''',
 demo='''use llamapun::ngrams::Dictionary;
fn main() {
  let mut d = Dictionary::new();
  for w in ["a", "b", "b", "c"] { d.insert(w.to_string()); }
  assert_eq!(d.count(), 3);
  assert_eq!(d.map["c"], 3);
}
'''),
dict(id='C15-wide', property='C15', needs='an entry recorded more than 255 times', breaks='the order compares only the low byte of the counts',
 file='ngrams.rs', old='''    let mut as_vec = self.counts.iter().map(|(x, y)| (x, *y)).collect::<Vec<_>>();
    as_vec.sort_by(|a, b| b.1.cmp(&a.1));''', new='''    let mut as_vec = self.counts.iter().map(|(x, y)| (x, *y)).collect::<Vec<_>>();
    as_vec.sort_by(|a, b| (b.1 as u8).cmp(&(a.1 as u8)));''',
 demo='''use llamapun::ngrams::Ngrams;
fn main() {
  let mut g = Ngrams::default();
  for _ in 0..300 { g.insert("often".into()); }
  for _ in 0..100 { g.insert("rare".into()); }
  let s = g.sorted();
  assert_eq!(s[0].0, "often");
}
'''),
]
