# P30: searching through the Ruby classes.
P30_RULE = "1 to 3 directories of random documents (with deletions), searched through Searcher (of a directory, a path, a reader, a reader over several directories) and MultiSearcher with random queries built through every Ruby query class, their options and ways of adding clauses, filters (also written in Ruby), filter procs, sorts and windows, with garbage collections in between; the documents found, their order, windows, scan, explain, TopDocs, terms, doc_freq, bits and highlights are compared with an evaluation of the query over the list of documents; non-trivial: at least three queries that select some but not all documents"
class SearchMachine
  S = Ferret::Search
  Sp = Ferret::Search::Spans
  Q = Struct.new(:q, :m, :d, :terms, :span)           # the query, its matcher, its description, its terms (nil: not known), its spans
  def initialize(c)
    @c = c; @s = c.s; @uid = 0; @sel = 0
    @vocab = Array.new(2 + @s.geo(14, 85)) { Array.new(1 + @s.geo(3, 50)) { @s.pick(%w[a b c]) }.join }.uniq
    @vocab << "\u00e9t\u00e9" if @s.chance(1, 4)
    @dirs = Array.new(1 + @s.geo(2, 35)) { |k| build(k) }
  end
  def text(n) = Array.new(@s.geo(n, 80)) { @s.pick(@vocab) }.join(' ')
  def gen_doc
    d = { :id => (@uid += 1).to_s, :t => Array.new(1 + (@s.chance(1, 6) ? @s.draw(3) : 0)) { text(10) }, :k => @s.pick(@vocab), :n => (@s.draw(40) - 10).to_s }
    d[:u] = [text(5)] if @s.draw(2) == 0
    d
  end
  def build(k)
    f = Index::FieldInfos.new(:term_vector => :with_positions_offsets)
    f.add_field(:id, :index => :untokenized, :term_vector => :no); f.add_field(:k, :index => :untokenized, :term_vector => :no); f.add_field(:n, :index => :untokenized, :term_vector => :no)
    path = @s.chance(1, 6) ? "#{@c.dir}/s#{k}" : nil; FileUtils.mkdir_p(path) if path
    dir = path ? Store::FSDirectory.new(path, true) : Store::RAMDirectory.new
    w = Index::IndexWriter.new(:dir => dir, :create => true, :field_infos => f, :analyzer => Analysis::WhiteSpaceAnalyzer.new(false), :max_buffered_docs => @s.pick([2, 3, 10, 10000]), :merge_factor => @s.pick([2, 3, 10]))
    docs = []
    @s.geo(14, 88).times do
      if docs.size > 2 && @s.chance(1, 9) then x = docs.delete_at(@s.draw(docs.size)); @c.t "  delete #{x[:id]}"; w.delete(:id, x[:id])
      else d = gen_doc; @c.t "  add #{d}"; w << d; docs << d end
    end
    w.close; @c.t "directory #{k}: #{docs.size} documents#{', on disk' if path}"
    { :dir => dir, :path => path, :docs => docs }
  end
  def cmp(what, got, exp) = @c.check(got == exp, what) { "#{what}: got #{got.inspect[0, 400]}, expected #{exp.inspect[0, 400]}" }
  def close(a, b) = (a - b).abs <= 1e-5 * [1.0, a.abs, b.abs].max
  def gc = (GC.start if @s.chance(1, 40))
  # ---- the searcher
  def open
    @kind = @dirs.size == 1 ? @s.draw(3) : 3 + @s.draw(3)
    one = lambda { |d, how| case how when 0 then S::Searcher.new(d[:dir]) when 1 then d[:path] ? S::Searcher.new(d[:path]) : S::Searcher.new(d[:dir]) else S::Searcher.new(Index::IndexReader.new(d[:dir])) end }
    @multi = @kind >= 4
    @sea = case @kind
           when 0, 1, 2 then one[@dirs[0], @kind]
           when 3 then S::Searcher.new(Index::IndexReader.new(@dirs.map { |d| d[:dir] }))
           else l = @dirs.map { |d| one[d, @s.draw(3)] }; @kind == 4 ? S::MultiSearcher.new(l) : @s.draw(3) == 0 ? S::MultiSearcher.new(l[0], S::MultiSearcher.new(l[1..])) : S::MultiSearcher.new(*l)
           end
    @c.t "searcher #{['of a directory', 'of a path', 'of a reader', 'of a reader over all directories', 'multi', 'multi'][@kind]}"; @c.label("searcher.#{@kind}")
    @docs = @dirs.flat_map { |d| d[:docs] }; @max = @sea.max_doc
    @num = {}.compare_by_identity; at = 0; @base = []
    @dirs.each do |d|
      r = Index::IndexReader.new(d[:dir]); live = (0...r.max_doc).reject { |n| r.deleted?(n) }; cmp("live documents", live.size, d[:docs].size)
      live.each_with_index { |n, k| @num[d[:docs][k]] = at + n }; @base << at; at += r.max_doc; r.close
    end
    cmp("max_doc", @max, at)
    @tok = {}.compare_by_identity
    @docs.each { |d| @tok[d] = { :t => d[:t].flat_map { |v| v.split(' ') }, :u => (d[:u] || []).flat_map { |v| v.split(' ') }, :k => [d[:k]], :n => [d[:n]], :id => [d[:id]], :zz => [] } }
    @terms = Hash.new { |h, f| h[f] = @docs.flat_map { |d| @tok[d][f] }.uniq.sort_by(&:b) }
    @docs.each { |d| cmp("document #{@num[d]}", @sea[@num[d]][:id], d[:id]) if @s.chance(1, 5) }
  end
  def idx(d, f, w) = @tok[d][f].each_index.select { |i| @tok[d][f][i] == w }
  # ---- queries
  def word = @s.chance(1, 15) ? "zzz" : @s.pick(@vocab)
  def field = @s.pick([:t, :t, :t, :u, :k, :zz].first(@s.chance(1, 12) ? 6 : 5))
  def tfield = @s.pick([:t, :t, :u])
  def fname(f) = @s.draw(3) == 0 ? f.to_s : f
  def query(depth = 0)                          # a MultiSearcher expands a query for each index: a known finding of P19
    gc
    r = case @s.weighted([6, 3, 3, 3, 4] + (@multi ? [0, 0, 0] : [2, 3, 2]) + [1] + (depth < 3 ? [8, 2, 2] : [0, 0, 0]) + [6])
        when 0 then term
        when 1 then multi
        when 2 then range
        when 3 then trange
        when 4 then phrase
        when 5 then prefix
        when 6 then wild
        when 7 then fuzzy
        when 8 then Q.new(S::MatchAllQuery.new, ->(_) { true }, "all", [])
        when 9 then bool(depth)
        when 10 then f = filter(depth, true); Q.new(S::ConstantScoreQuery.new(f.q), f.m, "const(#{f.d})", [])
        when 11 then q = query(depth + 1); f = filter(depth, true); Q.new(S::FilteredQuery.new(q.q, f.q), ->(d) { q.m[d] && f.m[d] }, "filtered(#{q.d}, #{f.d})", nil)
        else span(0, tfield).then { |x| Q.new(x.q, ->(d) { !x.span[d].empty? }, x.d, nil) }
        end
    if @s.chance(1, 10) then b = @s.pick([2.0, 0.5, 7.0]); r.q.boost = b; cmp("boost", r.q.boost, b); r.d += "^#{b}" end
    r
  end
  def term
    f = field; w = word
    if @s.chance(1, 6) then f = :n; w = (@s.draw(40) - 10).to_s; return Q.new(S::TermQuery.new(fname(f), w.to_i), ->(d) { @tok[d][:n] == [w] }, "n:#{w}", [[f, w]]) end
    Q.new(S::TermQuery.new(fname(f), @s.draw(4) == 0 ? w.to_sym : w.dup), ->(d) { @tok[d][f].include?(w) }, "#{f}:#{w}", [[f, w]])
  end
  def multi
    f = field; ws = Array.new(@s.geo(5, 70)) { word }.uniq
    q = @s.draw(2) == 0 ? S::MultiTermQuery.new(fname(f)) : S::MultiTermQuery.new(fname(f), :max_terms => 20 + @s.draw(5), :min_score => 0.0)
    ws.each { |w| case @s.draw(3) when 0 then q.add_term(w) when 1 then q << w else q.add_term(w, @s.pick([2.0, 0.5])) end }
    Q.new(q, ->(d) { !(@tok[d][f] & ws).empty? }, "multi(#{f}:#{ws.join('|')})", ws.map { |w| [f, w] })
  end
  # one way of writing the bounds of a range: options, what they mean, text
  def bounds(lo, hi, a, b)                       # a, b: inclusive
    o = {}
    unless lo.nil?
      case @s.draw(3)
      when 0 then o[a ? :lower : :lower_exclusive] = lo
      when 1 then o[a ? :>= : :>] = lo
      else if a then o[:lower_exclusive] = lo; o[:include_lower] = true else o[:lower] = lo; o[:include_lower] = false end
      end
    end
    unless hi.nil?
      case @s.draw(3)
      when 0 then o[b ? :upper : :upper_exclusive] = hi
      when 1 then o[b ? :<= : :<] = hi
      else if b then o[:upper_exclusive] = hi; o[:include_upper] = true else o[:upper] = hi; o[:include_upper] = false end
      end
    end
    o
  end
  def range_parts(typed)
    f = typed ? :n : @s.pick([:k, :t, :u, :n])
    v = ->() { f == :n ? (typed ? @s.draw(44) - 12 : (@s.draw(40) - 10).to_s) : word }
    key = ->(x) { typed ? x.to_i : x.b }
    lo, hi = [v[], v[]].sort_by { |x| key[x] }; a = @s.draw(2) == 0; b = @s.draw(2) == 0
    case @s.draw(4) when 0 then lo = nil when 1 then hi = nil end
    cv = ->(x) { x.nil? ? nil : typed ? (@s.draw(2) == 0 ? x : x.to_s) : @s.chance(1, 5) ? x.to_sym : x }
    o = bounds(cv[lo], cv[hi], a, b)
    m = ->(t) { k = key[t]; (lo.nil? || (a ? k >= key[lo] : k > key[lo])) && (hi.nil? || (b ? k <= key[hi] : k < key[hi])) }
    [f, o, ->(d) { @tok[d][f].any? { |t| m[t] } }]
  end
  def range = (f, o, m = range_parts(false); Q.new(S::RangeQuery.new(fname(f), o), m, "range(#{f} #{o})", []))
  def trange = (f, o, m = range_parts(true); Q.new(S::TypedRangeQuery.new(fname(f), o), m, "trange(#{f} #{o})", []))
  def phrase
    f = tfield; slop = @s.draw(4) == 0 ? @s.draw(3) : 0
    ps = Array.new(1 + @s.geo(2, 60)) { [Array.new(@s.chance(1, 6) ? 2 : 1) { word }.uniq, @s.chance(1, 6) ? 2 : 1] }
    slop = 0 if ps.flat_map(&:first).uniq!     # a repeated word needs a place of its own: P13
    q = case @s.draw(3) when 0 then S::PhraseQuery.new(fname(f), slop) else x = S::PhraseQuery.new(fname(f)); x.slop = slop if slop > 0 || @s.draw(2) == 0; x end
    cmp("slop", q.slop, slop)
    ps.each { |ws, inc| a = ws.size == 1 && @s.draw(4) > 0 ? ws[0] : ws; inc != 1 || @s.draw(4) == 0 ? (@s.draw(2) == 0 ? q.add_term(a, inc) : q.send(:<<, a, inc)) : q << a }
    m = lambda do |d|
      at = 0; l = ps.map { |ws, inc| at += inc; @tok[d][f].each_index.select { |i| ws.include?(@tok[d][f][i]) }.map { |i| i - at } }
      next false if l.any?(&:empty?)
      l.flatten.any? { |lo| l.all? { |v| v.any? { |x| x >= lo && x - lo <= slop } } }
    end
    Q.new(q, m, "phrase(#{f}: #{ps.inspect} ~#{slop})", ps.flat_map(&:first).map { |w| [f, w] }.uniq)
  end
  def opt_max = @s.draw(3) == 0 ? [{ :max_terms => 300 }] : @s.draw(2) == 0 ? [300] : []
  def expanding(f, q, d, &ok) = Q.new(q, ->(x) { @tok[x][f].any?(&ok) }, d, @multi || @max != @docs.size || d !~ /\*|\?|prefix|fuzzy/ ? nil : @terms[f].select(&ok).map { |t| [f, t] })
  def prefix = (f = field; w = word; p = w[0, 1 + @s.draw(w.size)]; expanding(f, S::PrefixQuery.new(fname(f), p, *opt_max), "prefix(#{f}:#{p})") { |t| t.start_with?(p) })
  def wild
    f = field; p = word.dup.b
    @s.geo(3, 70).times { i = @s.draw(p.size + 1); x = @s.pick(%w[* ?]); @s.draw(2) == 0 && i < p.size && p[i].ord < 128 ? p[i] = x : (i = p.size if p.bytes.any? { |y| y > 127 }; p.insert(i, x)) }
    re = /\A#{p.chars.map { |ch| ch == '*' ? '.*' : ch == '?' ? '.' : Regexp.escape(ch) }.join}\z/mn
    p = p.force_encoding('UTF-8')
    expanding(f, S::WildcardQuery.new(fname(f), p, *opt_max), "wild(#{f}:#{p})") { |t| re.match?(t.b) }
  end
  def lev(a, b)
    r = (0..b.size).to_a
    a.each_byte.with_index { |x, i| n = [i + 1]; b.each_byte.with_index { |y, j| n << [r[j + 1] + 1, n[j] + 1, r[j] + (x == y ? 0 : 1)].min }; r = n }
    r[-1]
  end
  def fuzzy
    f = field; w = word; ms = @s.pick([0.5, 0.25, 0.75, 0.125]); pl = @s.draw(4) == 0 ? @s.draw([w.bytesize, 3].min) : 0
    o = {}; o[:min_similarity] = ms if ms != 0.5 || @s.draw(2) == 0; o[:prefix_length] = pl if pl > 0 || @s.draw(2) == 0; o[:max_terms] = 300 if @s.draw(3) == 0
    q = o.empty? && @s.draw(2) == 0 ? S::FuzzyQuery.new(fname(f), w) : S::FuzzyQuery.new(fname(f), w, o)
    cmp("fuzzy options", [q.min_similarity, q.prefix_length], [ms, pl])
    sim = lambda { |t| a, b = w.b, t.b; next -1 unless b[0, pl] == a[0, pl] && b.size >= pl; a = a[pl..]; b = b[pl..]; mn = [a.size, b.size].min; mn == 0 && pl == 0 ? 0.0 : 1.0 - lev(a, b).to_f / (pl + mn) }
    expanding(f, q, "fuzzy(#{f}:#{w} #{o})") { |t| sim[t] > ms }
  end
  def bool(depth)
    cl = Array.new(@s.geo(4, 80)) { [query(depth + 1), @s.pick([:should, :should, :must, :must_not])] }
    co = @s.draw(4) == 0
    q = co ? S::BooleanQuery.new(true) : @s.draw(2) == 0 ? S::BooleanQuery.new : S::BooleanQuery.new(false)
    kept = []
    cl.each do |x, occ|
      case @s.draw(5)
      when 0 then q.add_query(x.q, occ)
      when 1 then occ == :should ? q.add_query(x.q) : q.send(:<<, x.q, occ)
      when 2 then b = S::BooleanQuery::BooleanClause.new(x.q, occ); @s.draw(2) == 0 ? q << b : q.add_query(b); kept << [b, occ]
      when 3 then b = S::BooleanQuery::BooleanClause.new(x.q); q << b; b.occur = occ; kept << [b, occ]
      else b = q.add_query(term.q, @s.pick([:must, :should])); b.occur = occ; b.query = x.q; kept << [b, occ]
      end
      gc
    end
    kept.each { |b, occ| cmp("clause", [b.required?, b.prohibited?], [occ == :must, occ == :must_not]); cmp("clause text", b.to_s, "#{{ :should => 'Should', :must => 'Must', :must_not => 'Must Not' }[occ]}:#{b.query.to_s}") }
    m = lambda do |d|
      next false if cl.empty?
      next false if cl.any? { |x, o| o == :must_not && x.m[d] }
      next false if cl.any? { |x, o| o == :must && !x.m[d] }
      cl.any? { |x, o| o == :must } || cl.any? { |x, o| o == :should && x.m[d] } || cl.all? { |_, o| o == :must_not }
    end
    ts = cl.select { |_, o| o != :must_not }.map { |x, _| x.terms }
    Q.new(q, m, "bool#{'!' if co}(#{cl.map { |x, o| "#{{ :must => '+', :must_not => '-', :should => '' }[o]}#{x.d}" }.join(' ')})", ts.any?(&:nil?) || cl.any? { |_, o| o == :must_not } ? nil : ts.flatten(1).uniq)
  end
  def span(depth, f)
    gc
    case @s.weighted([6, 2, @multi ? 0 : 2] + (depth < 2 ? [2, 4, 2, 2] : [0, 0, 0, 0]))
    when 0 then w = word; Q.new(Sp::SpanTermQuery.new(fname(f), w), nil, "span(#{f}:#{w})", nil, ->(d) { idx(d, f, w).map { |i| [i, i + 1] } })
    when 1 then ws = Array.new(1 + @s.geo(3, 60)) { word }.uniq; Q.new(Sp::SpanMultiTermQuery.new(fname(f), ws), nil, "span(#{f}:#{ws.join('|')})", nil, ->(d) { ws.flat_map { |w| idx(d, f, w) }.sort.map { |i| [i, i + 1] } })
    when 2 then p = word[0, 1 + @s.draw(2)]; Q.new(@s.draw(2) == 0 ? Sp::SpanPrefixQuery.new(fname(f), p) : Sp::SpanPrefixQuery.new(fname(f), p, 300), nil, "span(#{f}:#{p}*)", nil, ->(d) { @tok[d][f].each_index.select { |i| @tok[d][f][i].start_with?(p) }.map { |i| [i, i + 1] } })
    when 3 then x = span(depth + 1, f); e = @s.draw(6); Q.new(Sp::SpanFirstQuery.new(x.q, e), nil, "first(#{x.d}, #{e})", nil, ->(d) { x.span[d].select { |s| s[1] <= e } })
    when 4
      xs = Array.new(1 + @s.geo(2, 70)) { span(2, f) }; slop = @s.draw(4); ord = @s.draw(2) == 0
      q = case @s.draw(3)
          when 0 then Sp::SpanNearQuery.new(:slop => slop, :in_order => ord, :clauses => xs.map(&:q))
          when 1 then y = Sp::SpanNearQuery.new(:slop => slop, :in_order => ord); xs.each { |x| y << x.q }; y
          else if slop == 0 && !ord then y = Sp::SpanNearQuery.new; xs.each { |x| y.add(x.q) }; y
               else y = Sp::SpanNearQuery.new(:clauses => [xs[0].q], :slop => slop, :in_order => ord); xs[1..].each { |x| y.add(x.q) }; y end
          end
      near = lambda do |d|
        l = xs.map { |x| x.span[d] }; next [] if l.any?(&:empty?)
        at = [0] * l.size; r = []
        if ord
          catch(:end) do
            while at[0] < l[0].size
              pv = l[0][at[0]]; sum = pv[1] - pv[0]
              (1...l.size).each { |k| at[k] += 1 while at[k] < l[k].size && (l[k][at[k]] <=> pv) < 0; throw :end if at[k] >= l[k].size; pv = l[k][at[k]]; sum += pv[1] - pv[0] }
              r << [l[0][at[0]][0], pv[1]] if pv[1] - l[0][at[0]][0] - sum <= slop
              at[0] += 1
            end
          end
        else
          loop do
            c = l.each_index.map { |k| l[k][at[k]] }; mn = c.map(&:first).min; mx = c.map(&:last).max; mk = c.index { |x| x[0] == mn }
            r << [mn, mx] if mx - mn - c.sum { |a, b| b - a } <= slop
            at[mk] += 1; break if at[mk] >= l[mk].size
          end
        end
        r.sort
      end
      Q.new(q, nil, "near(#{xs.map(&:d).join(', ')} ~#{slop}#{' in order' if ord})", nil, near)
    when 5
      xs = Array.new(1 + @s.geo(2, 70)) { span(depth + 1, f) }
      q = if @s.draw(2) == 0 then Sp::SpanOrQuery.new(xs.map(&:q)) else y = Sp::SpanOrQuery.new; xs.each { |x| @s.draw(2) == 0 ? y << x.q : y.add(x.q) }; y end
      Q.new(q, nil, "or(#{xs.map(&:d).join(', ')})", nil, ->(d) { xs.flat_map { |x| x.span[d] }.sort })
    else
      a = span(depth + 1, f); b = span(depth + 1, f)
      Q.new(Sp::SpanNotQuery.new(a.q, b.q), nil, "not(#{a.d}, #{b.d})", nil, ->(d) { e = b.span[d]; a.span[d].reject { |s| e.any? { |o| o[1] > s[0] && o[0] < s[1] } } })
    end
  end
  # ---- filters
  class RubyFilter
    def initialize(&b) = @b = b
    def bits(reader) = Ferret::Utils::BitVector.new.tap { |bv| (0...reader.max_doc).each { |i| bv.set(i) if !reader.deleted?(i) && @b[reader[i][:id]] } }
  end
  def filter(depth = 0, native = false)
    case @s.weighted([3, 3, 3, native ? 0 : 3])
    when 0 then f, o, m = range_parts(false); Q.new(S::RangeFilter.new(fname(f), o), m, "range-filter(#{f} #{o})")
    when 1 then f, o, m = range_parts(true); Q.new(S::TypedRangeFilter.new(fname(f), o), m, "typed-range-filter(#{f} #{o})")
    when 2 then q = depth < 3 ? query(depth + 1) : term; Q.new(S::QueryFilter.new(q.q), q.m, "query-filter(#{q.d})")
    else k = 2 + @s.draw(3); Q.new(RubyFilter.new { |id| id.to_i % k == 0 }, ->(d) { d[:id].to_i % k == 0 }, "ruby-filter(id%#{k})")
    end
  end
  # a :sort option: [value, key of [document, score], text]
  def sort
    fields = Array.new(1 + @s.geo(2, 40)) { [@s.pick(@multi ? [:n, :score, :doc] : [:n, :k, :score, :doc]), @s.chance(1, 2)] }.uniq(&:first)
    txt = ->(f, r) { "#{' ' * @s.draw(2)}#{{ :score => 'SCORE', :doc => 'DOC_ID' }[f] || f}#{r ? ' DESC' : ''}#{' ' * @s.draw(2)}" }
    sf = lambda do |f, r|
      t = case f when :n then @s.draw(3) == 0 && !@multi ? :auto : @s.draw(2) == 0 ? :integer : :float when :k then @s.pick([:auto, :string, :byte]) when :score then :score else :doc_id end
      o = { :type => t }; o[:reverse] = r if r || @s.draw(2) == 0; o.delete(:type) if t == :auto && @s.draw(2) == 0
      x = S::SortField.new(fname(f), o); cmp("sort field", [x.reverse?, x.type], [r, t]); x
    end
    one = fields.size == 1; sp = %i[score doc].include?(fields[0][0]); all_asc = fields.none? { |_, r| r }; auto = !@multi
    pick = @s.draw(5)
    v = if pick == 0 && auto then fields.map { |f, r| txt[f, r] }.join(',')
        elsif pick == 1 && one then sf[*fields[0]]
        elsif pick == 2 then S::Sort.new(fields.map { |f, r| sf[f, r] })
        elsif pick == 3 && one && !sp && auto then @s.draw(2) == 0 ? S::Sort.new(fields[0][0], fields[0][1]) : fields[0][1] ? "#{fields[0][0]} DESC" : fields[0][0]
        elsif pick == 4 then S::Sort.new(fields.map { |f, r| sf[f, !r] }, true)
        else fields.map { |f, r| auto && @s.draw(2) == 0 ? txt[f, r].then { |x| !r && x == x.strip && !%i[score doc].include?(f) && @s.draw(2) == 0 ? f : x } : sf[f, r] } end
    if @s.chance(1, 4) && v.is_a?(S::Sort) then cmp("sort fields", v.fields.size, fields.size + (fields.any? { |f, _| f == :doc } ? 0 : 1)) unless fields.any? { |f, _| f == :doc } end
    cmpf = lambda do |a, b|
      r = 0
      (fields + [[:doc, false]]).each do |f, rev|
        x = case f when :n then a[0][:n].to_i <=> b[0][:n].to_i when :k then a[0][:k].b <=> b[0][:k].b when :score then b[1] <=> a[1] else @num[a[0]] <=> @num[b[0]] end
        r = rev ? -x : x; break if r != 0
      end
      r
    end
    [v, cmpf, "sort #{v.is_a?(S::Sort) || v.is_a?(S::SortField) ? v.to_s : v.inspect}#{fields.inspect}"]
  end
  # ---- checking
  def stress
    return yield unless @s.chance(1, 150)
    @c.label("gc.stress")
    GC.enable; GC.stress = true
    begin yield ensure GC.stress = false; GC.disable end
  end
  def run
    (2 + @s.geo(8, 80)).times { step }
    @sea.close if @s.draw(3) > 0
  end
  def step
    q = stress { query }
    @c.t "query #{q.d}"
    want = @docs.select { |d| q.m[d] }; @sel += 1 if !want.empty? && want.size < @docs.size
    nums = want.map { |d| @num[d] }
    gc
    all = @sea.search(q.q, :limit => :all)
    cmp("documents of #{q.d}", all.hits.map(&:doc).sort, nums.sort)
    cmp("total_hits of #{q.d}", all.total_hits, nums.size)
    cmp("order of #{q.d}", all.hits.map(&:doc), all.hits.sort_by { |h| [-h.score, h.doc] }.map(&:doc))
    cmp("max_score of #{q.d}", all.max_score, all.hits.map(&:score).max) unless nums.empty?
    base = all.hits.to_h { |h| [h.doc, h.score] }
    (1 + @s.draw(3)).times { use(q, all, base, want) }
  end
  def use(q, all, base, want)
    byn = want.to_h { |d| [@num[d], d] }
    case @s.weighted([8, 2, 2, 2, 2, 2, 1, 1, 1, 1])
    when 0                                       # a window, perhaps filtered and sorted
      o = {}; ds = want; sc = base.dup; key = nil; ex = true
      if @s.chance(1, 2) then f = filter; o[:filter] = f.q; ds = ds.select { |d| f.m[d] }; end
      if @s.chance(1, 4)
        k = 2 + @s.draw(3); rv = @s.pick([[true, false], [true, nil], [1, nil], [0.5, 0.0], [0.25, 1.0], [7.5, false], ["x", false]])
        o[:filter_proc] = lambda { |doc, score, s| gc; id = s[doc][:id].to_i; id % k == 0 ? rv[0] : rv[1] }
        fac = ->(v) { v.nil? || v == false ? 0.0 : v.is_a?(Float) ? (v.between?(0.0, 1.0) ? v : 1.0) : 1.0 }
        g = ->(d) { fac[d[:id].to_i % k == 0 ? rv[0] : rv[1]] }
        ds = ds.select { |d| g[d] > 0 }; ds.each { |d| sc[@num[d]] *= g[d] }; ex = false
      end
      if @s.chance(1, 3) then o[:sort], key, st = sort end
      off = @s.draw(4) == 0 ? @s.draw(ds.size + 3) : 0; lim = @s.draw(3) == 0 ? :all : 1 + @s.draw(ds.size + 3)
      o[:offset] = off if off > 0 || @s.draw(2) == 0; o[:limit] = lim unless lim == 10 && @s.draw(2) == 0
      @c.t "search #{o.reject { |k, _| %i[filter filter_proc sort].include?(k) }} #{f&.d} #{o[:filter_proc] ? 'proc' : ''} #{st}"
      exp = key ? ds.sort { |a, b| key[[a, sc[@num[a]]], [b, sc[@num[b]]]] } : ds.sort_by { |d| [-sc[@num[d]], @num[d]] }
      total = ds.size; exp = exp[off..] || []; exp = exp[0, lim] unless lim == :all
      if @s.chance(1, 3)
        got = []; t = stress { @sea.search_each(q.q, o) { |n, s| got << [n, s] } }
        cmp("total of search_each", t, total); cmp("hits of search_each #{q.d} #{st}", got.map(&:first), exp.map { |d| @num[d] })
        mx = [1.0, ds.map { |d| sc[@num[d]] }.max || 0.0].max
        got.each { |n, s| @c.check(close(s, sc[n] / mx), "score of search_each") { "score #{s} of document #{n}, expected #{sc[n]} / #{mx}" } } unless lim != :all && key
      else
        td = stress { @sea.search(q.q, o) }
        cmp("total_hits", td.total_hits, total); cmp("hits of #{q.d} #{f&.d} #{st}", td.hits.map(&:doc), exp.map { |d| @num[d] })
        td.hits.each { |h| @c.check(ex ? h.score == sc[h.doc] : close(h.score, sc[h.doc]), "score") { "score #{h.score} of document #{h.doc}, expected #{sc[h.doc]}" } }
        if @s.chance(1, 4)
          cmp("TopDocs#to_s", td.to_s, "TopDocs: total_hits = #{total}, max_score = #{'%f' % td.max_score} [\n" + td.hits.map { |h| "\t#{h.doc} \"#{byn[h.doc][:id]}\": #{'%0.5f' % h.score}\n" }.join + "]\n")
          cmp("TopDocs#to_s(:k)", td.to_s(:k).b, ("TopDocs: total_hits = #{total}, max_score = #{'%f' % td.max_score} [\n" + td.hits.map { |h| "\t#{h.doc} \"#{byn[h.doc][:k]}\": #{'%0.5f' % h.score}\n" }.join + "]\n").b)
          js = JSON.parse(td.to_json.force_encoding('UTF-8')); cmp("TopDocs#to_json", js, td.hits.map { |h| byn[h.doc].to_h { |a, v| [a.to_s, v.is_a?(Array) && v.size == 1 ? v[0] : v] } })
          cmp("searcher of TopDocs", td.searcher.equal?(@sea), true)
        end
      end
    when 1
      st = @s.draw(@max + 2); lim = @s.draw(3) == 0 ? nil : 1 + @s.draw(8); lim = :all if @s.chance(1, 10); o = {}; o[:start_doc] = st if st > 0; o[:limit] = lim if lim
      got = o.empty? && @s.draw(2) == 0 ? @sea.scan(q.q) : @sea.scan(q.q, o)
      cmp("scan #{q.d} #{o}", got, byn.keys.select { |n| n >= st }.sort.first(lim == :all ? 1 << 30 : lim || 50))
    when 2
      return if @max == 0
      n = !base.empty? && @s.chance(3, 4) ? @s.pick(base.keys) : @s.draw(@max)
      return unless @num.values.include?(n)
      e = @sea.explain(q.q, n); e.to_s; e.to_html
      @c.check(close(e.score, base[n] || 0.0), "explain") { "explain of #{q.d} for document #{n}: #{e.score}, its score is #{base[n].inspect}" }
    when 3
      return unless q.terms
      got = q.q.terms(@sea).map { |t| [t.field.to_sym, t.text.dup.force_encoding('UTF-8')] }
      cmp("terms of #{q.d}", got.sort, q.terms.sort)
    when 4
      f = @s.pick([:t, :u, :k, :n]); w = f == :n ? (@s.draw(40) - 10).to_s : word
      df = @sea.doc_freq(fname(f), w); n = @docs.count { |d| @tok[d][f].include?(w) }
      @c.check(df >= n, "doc_freq") { "doc_freq of #{f}:#{w} is #{df}, #{n} documents contain it" }
      cmp("doc_freq of #{f}:#{w}", df, n) if @max == @docs.size
    when 5
      return if @multi
      f = filter(0, true); bv = f.q.bits(@sea.reader); f.q.to_s
      cmp("bits of #{f.d}", bv.to_a, @docs.select { |d| f.m[d] }.map { |d| @num[d] }.sort)
    when 6                                       # highlights of a term
      w = word; ds = @docs.select { |d| d[:t].size == 1 && @tok[d][:t].include?(w) }; return if ds.empty?
      d = @s.pick(ds); tags = @s.pick([nil, ['[', ']'], ['{{', '}']])
      o = { :excerpt_length => :all }; o.merge!(:pre_tag => tags[0], :post_tag => tags[1]) if tags; tags ||= ['<b>', '</b>']
      h = @sea.highlight(S::TermQuery.new(:t, w), @num[d], fname(:t), o)
      cmp("highlight of #{w}", h.map { |x| x.force_encoding('UTF-8') }, [d[:t][0].split(' ').map { |x| x == w ? tags[0] + x + tags[1] : x }.join(' ')])
    when 7
      a = q.q; cmp("a query equals itself", [a == a, a.eql?(a), a.hash == a.hash], [true, true, true])
      cmp("a query and something else", [a == nil, a == "x", a.eql?(3), a == S::MatchAllQuery.new], [false, false, false, a.is_a?(S::MatchAllQuery) && a.boost == 1.0])
      cmp("text", a.to_s.class, String); a.to_s(:t)
    when 8                                       # sort strings with missing names, fields that are not there
      z = @s.pick([",n", " ", "", "n, ", "n,,k", ":n", " DESC", "zz", "n DESC,", ",", "DESC", "\t", "nope DESC"]); return if @multi
      begin @c.t "sort #{z.inspect}"; h = @sea.search(q.q, :limit => :all, :sort => z).hits.map(&:doc); cmp("documents of #{q.d} sorted by #{z.inspect}", h.sort, base.keys.sort)
      rescue ArgumentError => e then @c.t "  #{e.message.lines[2].to_s.strip}" end
    else
      o = { :limit => :all }; b = @s.pick([3.0, 0.5]); old = q.q.boost; q.q.boost = old * b
      cmp("documents of #{q.d} with another boost", @sea.search(q.q, o).hits.map(&:doc).sort, base.keys.sort); q.q.boost = old
    end
  end
  def done = @c.nontrivial = @sel >= 3
end
# documents without stored fields, in numbers
def p30_bare(c)
  n = 10_900 + c.s.draw(200); c.t "JSON of #{n} documents without stored fields"
  w = Index::IndexWriter.new(:dir => (d = Store::RAMDirectory.new), :field_infos => Index::FieldInfos.new(:store => :no, :term_vector => :no))
  n.times { w << { :u => "b" } }; w.close
  s = Ferret::Search::Searcher.new(d); j = s.search(Ferret::Search::MatchAllQuery.new, :limit => :all).to_json; s.close
  c.check(j == "[#{(['{}'] * n).join(',')}]", "JSON") { "JSON of #{n} documents: #{j.size} characters" }
end
P30 = lambda { |c| next p30_bare(c) if c.s.chance(1, 3000); m = SearchMachine.new(c); m.open; m.run; m.done }
