# P26: the Index class against an ordered collection of documents.
require 'set'
include Ferret
P26_RULE = "random histories of Index operations (add, update, batch_update, query_update, delete by id, number, list and query, flush, optimize, close and reopen, add_indexes, persist, direct use of the writer) on RAM and disk directories, with no key, a single or a compound key, with and without auto-flush, through one Index object or (with auto-flush) two on one directory; reads of every kind (size, each, lookup by id and number, search with windows, sorts and filters, search_each, scan, highlight, term vectors) are compared with a list of documents; non-trivial: at least one document was replaced or deleted and the collection was read while it held documents"
WORDS = %w[ant bee cat dog eel fox]
IDS = %w[i0 i1 i2 i3 i4]
TAGS = %w[red green blue]

class IndexMachine
  def initialize(c)
    @c = c; @s = c.s; @docs = []; @uid = 0; @raw = Set.new; @changed = 0; @reads = 0
    @key = @s.pick([nil, :id, :id, [:id, :tag]])
    @auto = @s.draw(2) == 1
    @two = @auto && @s.chance(1, 2)
    @fs = @s.chance(1, 4)
    @compress = @s.chance(1, 5)
    @tune = { :max_buffered_docs => @s.pick([2, 3, 10, 10000]), :merge_factor => @s.pick([2, 3, 10]), :use_compound_file => @s.draw(2) == 0 }
    @idf = @key.is_a?(Array) || @key.nil? ? (@s.chance(1, 8) ? :tag : :id) : @key
    @path = "#{c.dir}/idx"; @n_dirs = 0
    c.t "index key=#{@key.inspect} auto_flush=#{@auto} #{@fs ? 'disk' : 'RAM'}#{' two objects' if @two}#{' compressed body' if @compress} id_field=#{@idf} #{@tune}"
    if @fs then FileUtils.mkdir_p(@path) else @ram = Store::RAMDirectory.new end
    Index::IndexWriter.new({ :create => true, :field_infos => fis }.merge(@fs ? { :path => @path } : { :dir => @ram })).close
    @ix = Array.new(@two ? 2 : 1) { open_index }
  end
  def fis
    f = Index::FieldInfos.new
    f.add_field(:uid, :index => :untokenized); f.add_field(:id, :index => :untokenized); f.add_field(:tag, :index => :untokenized_omit_norms)
    f.add_field(:title, :store => :yes); f.add_field(:body, :store => @compress ? :compress : :yes)
    f
  end
  def open_index
    o = { :analyzer => Analysis::WhiteSpaceAnalyzer.new(true), :auto_flush => @auto }.merge(@tune)
    o[:key] = @key if @key; o[:id_field] = @idf if @idf != :id
    if @fs then @s.draw(2) == 0 ? o[:path] = @path : (o[:dir] = Store::FSDirectory.new(@path, false); o[:close_dir] = true) else o[:dir] = @ram end
    Index::Index.new(o)
  end
  def ix = @two ? @s.pick(@ix) : @ix[0]

  # ---- documents
  def text(max = 6) = Array.new(@s.geo(max, 80)) { w = @s.pick(WORDS); @s.chance(1, 12) ? w.capitalize : w }.join(' ')
  def gen_doc(id = nil)
    d = { :uid => (@uid += 1).to_s, :id => id || @s.pick(IDS), :tag => @s.pick(TAGS) }
    d[:title] = @s.chance(1, 6) ? Array.new(1 + @s.draw(3)) { text(3) } : text
    d[:body] = text(12) if @s.draw(2) == 1
    d[:body] = d[:body] * 20 if d[:body] && @s.chance(1, 12)
    d
  end
  def as_input(d)                              # the same document in the forms the API takes
    r = d.dup
    r[:uid] = r[:uid].to_i if @s.chance(1, 4)
    r[:tag] = r[:tag].intern if @s.chance(1, 6)
    if @s.chance(1, 6) then x = Document.new(@s.pick([1.0, 2.0])); r.each { |k, v| x[k] = v }; r = x end
    r
  end
  def vals(d, f) = (v = d[f]; v.nil? ? [] : v.is_a?(Array) ? v : [v])
  def raw?(d) = @raw.include?(d[:uid])          # added with an analyzer that keeps the case
  def toks(d, f) = %i[title body].include?(f) ? vals(d, f).flat_map { |v| raw?(d) ? v.split : v.downcase.split } : vals(d, f)
  def norm(d) = d.to_a.map { |k, v| [k.to_s, (v.is_a?(Array) ? v : [v]).map { |x| x.to_s.b }] }.sort.to_h
  def del_if(&b) = (n = @docs.size; @docs.reject!(&b); @changed += 1 if n != @docs.size)
  def del_id(id) = del_if { |d| vals(d, @idf).include?(id.to_s) }
  def some_id = @idf == :id ? @s.pick(IDS + %w[zz]) : @s.pick(TAGS + %w[zz])
  def show(d) = d.map { |k, v| "#{k}:#{v.inspect[0, 60]}" }.join(' ')

  # ---- queries: [query object or text, condition]
  def gen_query(depth = 0, str = false)
    f = @s.pick(%i[title body id tag]); w = %i[title body].include?(f) ? @s.pick(WORDS) : f == :id ? @s.pick(IDS) : @s.pick(TAGS)
    case @s.weighted([str ? 0 : 4, 4, 2, depth < 2 ? 3 : 0, 2, 2, 2, str ? 0 : 1])
    when 0 then [Search::TermQuery.new(f, w), ->(d) { toks(d, f).include?(w) }, "TermQuery(#{f}:#{w})"]
    when 1 then ["#{f}:#{w}", ->(d) { toks(d, f).include?(w) }]
    when 2 then [w, ->(d) { %i[uid id tag title body].any? { |g| toks(d, g).include?(w) } }]
    when 3
      a = str_query; b = str_query
      case @s.draw(3)
      when 0 then ["#{a[0]} AND #{b[0]}", ->(d) { a[1][d] && b[1][d] }]
      when 1 then ["#{a[0]} OR #{b[0]}", ->(d) { a[1][d] || b[1][d] }]
      else ["+#{a[0]} -#{b[0]}", ->(d) { a[1][d] && !b[1][d] }]
      end
    when 4
      f = @s.pick(%i[title body]); a, b = @s.pick(WORDS), @s.pick(WORDS)
      ["#{f}:\"#{a} #{b}\"", ->(d) { toks(d, f).each_cons(2).include?([a, b]) }]
    when 5 then lo, hi = [@s.draw(@uid + 2), @s.draw(@uid + 2)].minmax; ["uid:[#{lo} #{hi}]", ->(d) { d[:uid].to_i.between?(lo, hi) }]
    when 6 then p = w[0, 1 + @s.draw(w.size)]; ["#{f}:#{p}*", ->(d) { toks(d, f).any? { |x| x.start_with?(p) } }]
    else [Search::MatchAllQuery.new, ->(_) { true }, "MatchAllQuery"]
    end
  end
  def str_query = gen_query(2, true)
  def qs(q) = q[2] || q[0].to_s

  # ---- reads
  def uids(ix, nums) = nums.map { |n| ix[n][:uid].to_s }
  def want(q) = @docs.select { |d| q[1][d] }.map { |d| d[:uid].to_s }.sort_by(&:to_i)
  def num_of(ix, uid)
    n = []; ix.search_each(Search::TermQuery.new(:uid, uid), :limit => :all) { |d, _| n << d }
    @c.check(n.size == 1, "search") { "document ##{uid} is found #{n.size} times" }
    n[0]
  end
  def cmp(what, got, exp) = @c.check(got == exp, what) { "#{what}: got #{got.inspect[0, 300]}, expected #{exp.inspect[0, 300]}" }
  def read(i = ix)
    @reads += 1 unless @docs.empty?
    case @s.draw(12)
    when 0 then @c.t "size"; cmp("size", i.size, @docs.size)
    when 1
      @c.t "each"; got = []; i.each { |d| got << norm(d) }
      cmp("documents", got.sort_by { |d| d["uid"][0].to_i }, @docs.map { |d| norm(d) }.sort_by { |d| d["uid"][0].to_i })
    when 2
      id = some_id; id = id.intern if @s.draw(4) == 0; @c.t "lookup #{id.inspect}"
      d = i[id]; all = @docs.select { |x| vals(x, @idf).include?(id.to_s) }
      if all.empty? then @c.check(d.nil?, "lookup", "index[#{id.inspect}] is #{d.inspect}, but there is no such document")
      else @c.check(d && all.any? { |x| norm(x) == norm(d.load) }, "lookup") { "index[#{id.inspect}] is #{d && d.load.inspect}" } end
    when 3
      next_q = gen_query; @c.t "search #{qs(next_q)}"
      w = want(next_q); td = i.search(next_q[0], :limit => :all)
      cmp("total of #{qs(next_q)}", td.total_hits, w.size)
      cmp("hits of #{qs(next_q)}", uids(i, td.hits.map(&:doc)).sort_by(&:to_i), w)
    when 4
      q = gen_query; lim = 1 + @s.draw(6); off = @s.draw(5); @c.t "search #{qs(q)} limit #{lim} offset #{off} by uid"
      w = want(q); desc = @s.draw(2) == 1; w.reverse! if desc
      sort = @s.draw(2) == 0 ? "uid#{' DESC' if desc}" : Search::SortField.new(:uid, :type => :integer, :reverse => desc)
      td = i.search(q[0], :limit => lim, :offset => off, :sort => sort)
      cmp("total of #{qs(q)}", td.total_hits, w.size)
      cmp("window of #{qs(q)} by uid#{' DESC' if desc}", uids(i, td.hits.map(&:doc)), w[off, lim] || [])
    when 5
      q = gen_query; @c.t "search_each #{qs(q)}"; got = []
      r = i.search_each(q[0], :limit => :all) { |d, _| got << d }
      cmp("search_each count of #{qs(q)}", r, want(q).size); cmp("search_each of #{qs(q)}", uids(i, got).sort_by(&:to_i), want(q))
    when 6
      q = gen_query; @c.t "scan #{qs(q)}"; cmp("scan of #{qs(q)}", uids(i, i.scan(q[0], :limit => :all)).sort_by(&:to_i), want(q))
    when 7
      q = gen_query; @c.t "search #{qs(q)} filtered"
      w = want(q)
      if @s.draw(2) == 0
        lo = @s.draw(@uid + 1) + 1; td = i.search(q[0], :limit => :all, :filter => Search::TypedRangeFilter.new(:uid, :>= => lo.to_s)); w = w.select { |u| u.to_i >= lo }
      else
        td = i.search(q[0], :limit => :all, :filter_proc => ->(d, _, sea) { sea[d][:uid].to_i.even? }); w = w.select { |u| u.to_i.even? }
      end
      cmp("filtered total of #{qs(q)}", td.total_hits, w.size); cmp("filtered hits of #{qs(q)}", uids(i, td.hits.map(&:doc)).sort_by(&:to_i), w)
    when 8
      return if @docs.empty?
      d = @s.pick(@docs); n = num_of(i, d[:uid].to_s); @c.t "document number #{n}"
      cmp("document #{n}", norm(i[n].load), norm(d)); @c.check(!i.deleted?(n), "deleted", "document #{n} is said to be deleted")
      x = i[n]; f = @s.pick(%i[title body id tag nope]); cmp("field #{f} of document #{n}", x[f].nil? ? nil : vals({ f => x[f] }, f).map(&:b), d[f].nil? ? nil : vals(d, f).map { |v| v.to_s.b })
    when 10
      @c.t "to_s"; cmp("number of documents in to_s", i.to_s.lines.size, @docs.size)
    when 9
      return if @docs.empty?
      d = @s.pick(@docs); w = @s.pick(WORDS); n = num_of(i, d[:uid].to_s); @c.t "highlight #{w} in #{n}"
      h = i.highlight("title:#{w}", n, :field => :title, :excerpt_length => :all, :pre_tag => "<", :post_tag => ">")
      txt = vals(d, :title).join(' ')
      exp = toks(d, :title).empty? ? nil : [txt.gsub(raw?(d) ? /\b#{w}\b/ : /\b#{w}\b/i) { |m| "<#{m}>" }]
      cmp("highlighting #{w} in #{txt.inspect}", h && h.map(&:b), exp && exp.map(&:b))
    else
      return if @docs.empty?
      d = @s.pick(@docs); n = num_of(i, d[:uid].to_s); @c.t "term vector of #{n}"
      tv = i.term_vector(@s.draw(2) == 0 ? n : n, :title); t = toks(d, :title)
      exp = t.uniq.sort.map { |w| [w, t.each_index.select { |x| t[x] == w }] }
      cmp("term vector of #{n}", tv ? tv.terms.map { |x| [x.text, x.positions] } : [], exp)
    end
  end

  # ---- writes
  def add(i)
    d = gen_doc; @c.t "add #{show(d)}"
    if @key
      if @key.is_a?(Array) then del_if { |x| @key.all? { |k| vals(x, k).include?(d[k]) } } else del_if { |x| vals(x, @key).include?(d[@key]) } end
    end
    if @s.chance(1, 8) then @raw << d[:uid]; @c.t "  with an analyzer that keeps the case"; i.add_document(as_input(d), Analysis::WhiteSpaceAnalyzer.new(false)) else i << as_input(d) end
    @docs << d
  end
  def step
    GC.start if @s.chance(1, 60)
    i = ix
    case @s.weighted([14, 5, 4, 3, 6, 3, 2, 1, 2, 1, 1, 1])
    when 0 then add(i)
    when 1
      d = gen_doc
      if @s.draw(2) == 0 || @docs.empty?
        id = some_id; @c.t "update #{id.inspect} with #{show(d)}"; i.update(@s.draw(4) == 0 ? id.intern : id, as_input(d)); del_id(id)
      else
        o = @s.pick(@docs); n = num_of(i, o[:uid].to_s); @c.t "update number #{n} (##{o[:uid]}) with #{show(d)}"; i.update(n, as_input(d)); del_if { |x| x.equal?(o) }
      end
      @docs << d
    when 2
      case @s.draw(3)
      when 0
        ds = (IDS.select { @s.chance(1, 3) }).map { |id| gen_doc(id) }
        ds = ds.uniq { |d| d[@idf] }
        @c.t "batch_update #{ds.map { |d| show(d) }.join(' | ')}"; i.batch_update(ds.map { |d| as_input(d).tap { |r| r[@idf] = d[@idf] } }); ds.each { |d| del_id(d[@idf]) }; @docs.concat(ds)
      when 1
        h = {}; (1 + @s.draw(3)).times { id = some_id; h[@s.draw(4) == 0 ? id.intern : id] = gen_doc }
        @c.t "batch_update #{h.map { |k, d| "#{k.inspect} => #{show(d)}" }.join(' | ')}"; i.batch_update(h.transform_values { |d| as_input(d) }); h.each_key { |k| del_id(k) }; @docs.concat(h.values)
      else
        os = @docs.sample_by(@s, 3); h = {}; os.each { |o| h[num_of(i, o[:uid].to_s)] = gen_doc }
        @c.t "batch_update #{h.map { |k, d| "#{k.inspect} => #{show(d)}" }.join(' | ')}"; i.batch_update(h); del_if { |x| os.any? { |o| o.equal?(x) } }; @docs.concat(h.values)
      end
    when 3
      q = gen_query; nv = { :tag => @s.pick(TAGS) }; nv[:title] = text if @s.draw(2) == 0; nv[:extra] = "x#{@s.draw(3)}" if @s.chance(1, 6)
      @c.t "query_update #{qs(q)} with #{show(nv)}"; i.query_update(q[0], nv)
      @docs.map! { |d| q[1][d] ? (@changed += 1; @raw.delete(d[:uid]); d.merge(nv)) : d }
    when 4
      case @s.draw(4)
      when 0 then id = some_id; @c.t "delete #{id.inspect}"; i.delete(@s.draw(4) == 0 ? id.intern : id); del_id(id)
      when 1
        return if @docs.empty?
        o = @s.pick(@docs); n = num_of(i, o[:uid].to_s); @c.t "delete number #{n} (##{o[:uid]})"; i.delete(n); del_if { |x| x.equal?(o) }
      else
        os = @docs.sample_by(@s, 3); ids = Array.new(@s.draw(3)) { some_id }
        l = os.map { |o| num_of(i, o[:uid].to_s) } + ids.map { |x| @s.draw(4) == 0 ? x.intern : x }
        @c.t "delete #{l.inspect}"; i.delete(@s.draw(2) == 0 ? l : l.to_h { |x| [x, nil] }); del_if { |x| os.any? { |o| o.equal?(x) } }; ids.each { |x| del_id(x) }
      end
    when 5 then q = gen_query; @c.t "query_delete #{qs(q)}"; i.query_delete(q[0]); del_if { |d| q[1][d] }
    when 6 then @c.t "flush"; @s.draw(2) == 0 ? i.flush : i.commit
    when 7 then @c.t "optimize"; i.optimize
    when 8
      k = @s.draw(@ix.size); @c.t "close and reopen"; @ix[k].close; @ix[k] = open_index
    when 9
      return if @two
      d = gen_doc; @c.t "writer << #{show(d)}"; i.writer << d; @docs << d
    when 10
      mk = lambda { |ds| o = Index::Index.new(:field_infos => fis, :analyzer => Analysis::WhiteSpaceAnalyzer.new(true)); ds.each { |d| o << d }; o }
      dd = lambda { |ds| dir = Store::RAMDirectory.new; w = Index::IndexWriter.new(:dir => dir, :create => true, :field_infos => fis, :analyzer => Analysis::WhiteSpaceAnalyzer.new(true)); ds.each { |d| w << d }; w.close; dir }
      lists = Array.new(1 + @s.geo(3, 40)) { Array.new(1 + @s.draw(3)) { gen_doc } }; own = @s.draw(3) == 0
      from = lists.map(&:size).join(" + "); at = @s.draw(lists.size + 1)
      case @s.draw(3)
      when 0 then a = lists.map(&mk); a.insert(at, i) if own; @c.t "add_indexes: #{a.size} indexes of #{from}#{' and itself' if own}"; i.add_indexes(a.size == 1 ? a[0] : a)
      when 1 then a = lists.map { |l| mk[l].reader }; @c.t "add_indexes: readers of #{from}"; i.add_indexes(a)
      else a = lists.map(&dd); (a.insert(at, @ram) if own && !@fs); @c.t "add_indexes: #{a.size} directories of #{from}#{' and its own' if own && !@fs}"; i.add_indexes(a.size == 1 ? a[0] : a)
      end
      ds = lists.flatten
      @docs.concat(ds)
    else
      return if @two || @fs || @docs.empty?       # (an index without segments keeps no field definitions)
      p = "#{@c.dir}/p#{@n_dirs += 1}"
      @c.t "persist"; @ix[0].persist(p); @fs = true; @path = p
      @ix[0].close; @ix[0] = open_index if true
    end
  end
  def run
    (2 + @s.geo(30, 93)).times { step; read(ix) while @s.chance(1, 3) }
    if @s.draw(2) == 0 then k = @s.draw(@ix.size); @c.t "close and reopen"; @ix[k].close; @ix[k] = open_index end
    @ix.each { |i| @c.t "final check"; cmp("size", i.size, @docs.size); got = []; i.each { |d| got << norm(d) }
      cmp("documents", got.sort_by { |d| d["uid"][0].to_i }, @docs.map { |d| norm(d) }.sort_by { |d| d["uid"][0].to_i })
      q = gen_query; n = []; i.search_each(q[0], :limit => :all) { |d, _| n << d }; cmp("search_each of #{qs(q)}", uids(i, n).sort_by(&:to_i), want(q)) }
    @ix.each(&:close)
    @c.nontrivial = @changed > 0 && @reads > 0; @c.label("two objects") if @two; @c.label("disk") if @fs; @c.label("key #{@key.inspect}")
  end
end
class Array
  def sample_by(s, max) = (n = [s.draw(max + 1), size].min; r = []; n.times { x = self[s.draw(size)]; r << x unless r.any? { |y| y.equal?(x) } }; r)
end
P26 = ->(c) { IndexMachine.new(c).run }
