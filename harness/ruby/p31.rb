# P31: text analysis through the Ruby classes.
P31_RULE = "random texts through token streams and analyzers of every Ruby analysis class (ready-made tokenizers, filters in random stacks, regular expressions with and without procs, tokenizers, filters and analyzers written in Ruby, analyzers per field), several streams read alternately, re-used with text=, dropped, with garbage collections in between and during calls; the same analyzers then index documents and parse queries; every token (text, byte offsets, position increment), the text, the positions in the index and the query are compared with a model of the analysis written in Ruby; non-trivial: at least six tokens compared and one stream with a filter, re-used, or used by an index"
class CommaTokenizer
  A = Ferret::Analysis
  attr_reader :text
  def initialize(t) = self.text = t
  def text=(t); @text = t; @at = 0; end
  def next
    b = @text.b
    @at += 1 while @at < b.size && b[@at] =~ /[, \n\t]/n
    return nil if @at >= b.size
    e = (b.index(/[, \n\t]/n, @at) || b.size); t = A::Token.new(b[@at...e], @at, e); @at = e; t
  end
end
# :rev reverses the text, :odd drops tokens of an even number of bytes, :syn adds a second token to every token that holds an "a"
class RubyFilter
  A = Ferret::Analysis
  def initialize(ts, kind); @ts = ts; @kind = kind; @more = nil; end
  def text = @ts.text
  def text=(t); @more = nil; @ts.text = t; end
  def next
    case @kind
    when :rev then (t = @ts.next) && (t.text = t.text.b.reverse; t)
    when :odd then skip = 0; while (t = @ts.next); return (t.pos_inc += skip; t) if t.text.bytesize.odd?; skip += t.pos_inc; end; nil
    else
      if @more then m = @more; @more = nil; return m end
      t = @ts.next or return nil
      @more = A::Token.new(t.text.b + "+", t.start, t.end, 0) if t.text.b.include?('a'); t
    end
  end
end
class StackAnalyzer
  def initialize(m, spec); @m = m; @spec = spec; end
  def token_stream(_field, text) = @m.build(@spec, text)
end
class SubAnalyzer < Ferret::Analysis::WhiteSpaceAnalyzer
  def token_stream(f, text) = Ferret::Analysis::StopFilter.new(super, %w[ab the])
end

class AnalysisMachine
  A = Ferret::Analysis
  MAXT = 254
  Stops = %w[the and a b ab aa foo c bar x is]
  def initialize(c)
    @c = c; @s = c.s; @n = 0; @more = false; @uni = @s.chance(1, 3); @long = @s.chance(1, 3); @streams = []
  end
  def fail(what, got, exp) = @c.fail(what, "#{what}: got #{got.inspect[0, 500]}, expected #{exp.inspect[0, 500]}")
  def cmp(what, got, exp) = got == exp || fail(what, got, exp)
  def stress
    return yield unless @s.chance(1, 40)
    @c.label("gc.stress"); GC.enable; GC.stress = true
    begin yield ensure GC.stress = false; GC.disable end
  end
  def gc = (if @s.chance(1, 12) then k = @s.draw(4); @c.t "GC #{k}"; Array.new(50) { "x" * 40 }; (1 + k).times { GC.start(full_mark: k == 0) } end)
  def hook = (GC.start if @s.chance(1, 100))          # called from procs
  # ---- texts: pieces with their standard tokens
  def word(max = 6) = Array.new(1 + @s.geo(max, 70)) { (@s.chance(1, 6) ? 65 : 97) + @s.draw(4) }.pack('C*')
  def piece
    case @s.weighted([10, 3, 2, 2, 1, 2, 1, @uni ? 6 : 0, 1])
    when 0 then w = word; [w, w]
    when 1 then w = @s.pick(Stops + %w[The running houses]); [w, w]
    when 2 then w = word(3) + "-" + word(3); [w, w]
    when 3 then w = word(4); [w + "'s", w]
    when 4 then l = Array.new(2 + @s.geo(2, 50)) { %w[A B C D][@s.draw(4)] }; [l.join('.'), l.join]
    when 5 then w = @s.pick(%w[1 42 3.14 2008]); [w, w]
    when 6 then w = "#{word(3)}@#{word(3)}.com"; [w, w]
    when 7 then w = @s.pick(%W[\u00e9t\u00e9 \u00c9a na\u00efve \u0436\u0443\u043a \u0416\u0423\u041a a\u00e9]); [w, w]
    else w = %w[a B cd][@s.draw(3)] * @s.pick(@long ? [120, 126, 253, 254, 255, 256, 300] : [1, 3, 9]); [w, w[0, MAXT]] end
  end
  # -> [text, [[token, start, end, 1]..] of the standard tokenizer]
  def text(max = 8)
    t = +''; toks = []
    @s.geo(max, 85).times do
      t << @s.pick(['  ', "\n", "\t", ', ', ' (']) if @s.chance(1, 5)
      t << ' ' unless t.empty?
      o, k = piece; b = t.bytesize; t << o; toks << [k.b, b, t.bytesize, 1]
    end
    t << ' ' if @s.chance(1, 8)
    [t, toks]
  end
  # ---- the model
  def cut(x, n = MAXT) = x.bytesize <= n ? x : (y = x.b[0, n].force_encoding('UTF-8'); y = y.byteslice(0, y.bytesize - 1) until y.valid_encoding?; y)
  def scan(t, re)
    r = []; t.scan(re) { m = Regexp.last_match; r << [m[0], m.byteoffset(0)[0], m.byteoffset(0)[1], 1] }; r
  end
  # the C side passes texts on as bytes, Ruby with their encoding: only patterns and procs that treat both alike; the last three can match nothing
  Regs = [/\w+/, /[^ ,\n\t(]+/, /[a-z]+/i, /[!-~]/, /a|b+/, /\d+|[A-Z]/, /(a)(b)?/, /x*/, /[ab]*c?/, /\b/]
  Procs = { :up => lambda { |x| x.b.upcase }, :dot => lambda { |x| x.b + '.' }, :empty => lambda { |x| x.bytesize > 3 ? '' : x }, :long => lambda { |x| x.b * 100 } }
  def base_tokens(b, t, std)
    u = t.dup.force_encoding('UTF-8')
    l = case b[0]
        when :aws, :ws then scan(u, /[^ \t\n\v\f\r]+/)
        when :al then scan(u, /[A-Za-z]+/)
        when :l then scan(u, /[[:alpha:]]+/)
        when :as, :std then std
        when :comma then scan(u, /[^, \n\t]+/)
        when :re then scan(u, Regs[b[1]]).map { |k| b[2] ? [Procs[b[2]][k[0]], *k[1..]] : k }
        end
    l.map { |x, s, e, i| x = x.b; x = (b[1] == true && %i[ws l].include?(b[0])) ? cut(x.dup.force_encoding('UTF-8').downcase) : x[0, MAXT]; [x.b, s, e, i] }
  end
  def map_ref(t, map)
    out = +''.b; lit = +''.b
    t.each_char do |ch|
      break if out.size + lit.size >= MAXT
      lit << ch; best = nil
      map.each { |m| best = m if lit.end_with?(m[0]) && (!best || m[0].size >= best[0].size) }
      if best then out << lit[0, lit.size - best[0].size] << best[1]; out = out[0, MAXT]; lit = +''.b end
    end
    out + lit
  end
  def filter_tokens(f, l)
    skip = 0; r = []
    l.each do |x, s, e, i|
      case f[0]
      when :alow then r << [x.tr('A-Z', 'a-z'), s, e, i]
      when :low then r << [(v = x.dup.force_encoding('UTF-8')).valid_encoding? ? cut(v.downcase).b : x, s, e, i]
      when :stop then f[1].include?(x) ? skip += i : (r << [x, s, e, i + skip]; skip = 0)
      when :map then r << [map_ref(x, f[2]), s, e, i]
      when :stem then r << [stem(f[1], x), s, e, i]
      when :rev then r << [x.reverse, s, e, i]
      when :odd then x.size.odd? ? (r << [x, s, e, i + skip]; skip = 0) : skip += i
      when :syn then r << [x, s, e, i]; r << [(x + '+')[0, MAXT], s, e, 0] if x.include?('a')
      when :hyphen
        tail = x[1..] || ''
        if tail.include?('-') && tail !~ /[^A-Za-z-]/n
          r << [x.delete('-'), s, e, i]; at = 0
          while at < x.size; j = x.index('-', at) || x.size; r << [x[at...j], s + at, s + j, at == 0 ? 0 : 1]; at = j + 1 end
        else r << [x, s, e, i] end
      end
    end
    r
  end
  STEMS = {}
  def stem(algo, x)
    return x if x.empty?
    STEMS[[algo, x]] ||= A::StemFilter.new(One.new(x), algo).next.text.b
  end
  class One
    def initialize(x) = @x = x
    def next = (x = @x; @x = nil; x && Ferret::Analysis::Token.new(x, 0, x.bytesize))
  end
  def tokens(spec, t, std) = spec[1].inject(base_tokens(spec[0], t, std)) { |l, f| filter_tokens(f, l) }
  # ---- token streams: [base, [filter..]]
  def procs = @long ? Procs.keys : Procs.keys - [:long]
  def gen_base = case @s.weighted([2, 2, 2, 2, 2, 2, 4, @long ? 0 : 2])
    when 0 then [:aws] when 1 then [:ws, @s.pick([nil, false, true])] when 2 then [:al] when 3 then [:l, @s.pick([nil, false, true])]
    when 4 then [@uni ? :std : :as] when 5 then [:std] when 6 then [:re, @s.draw(Regs.size - (@uni ? 3 : 0)), @s.draw(2) == 0 ? nil : @s.pick(procs)] else [:comma] end
  def gen_filter
    case @s.draw(@long ? 6 : 8)
    when 0 then [:alow] when 1 then [:low]
    when 2 then w = Array.new(@s.geo(5, 80)) { @s.pick(Stops) }; @s.chance(1, 3) ? [:stop, A::FULL_ENGLISH_STOP_WORDS.map(&:b), :default] : [:stop, w]
    when 3 then m = {}; @s.geo(5, 80).times { k = pat; k = Array.new(1 + @s.draw(3)) { pat } if @s.chance(1, 3); m[k] = @s.pick(['', 'x', 'yy', 'abc', "\u00e4", 'z' * (@long ? 12 : 6), :q]) }
      l = m.flat_map { |k, v| (k.is_a?(Array) ? k.reverse : [k]).map { |x| [x.to_s.b, v.to_s.b] } }; [:map, m, l]
    when 4 then [:hyphen]
    when 5 then [:stem, @s.pick(%w[english porter french german])]
    else [@s.pick(%i[rev odd syn])] end
  end
  def pat = (p = @s.chance(1, 4) ? "\u00e9" : Array.new(1 + @s.geo(2, 50)) { 97 + @s.draw(3) }.pack('C*'); @s.chance(1, 5) ? p.to_sym : p)
  def gen_spec
    b = gen_base; fs = Array.new(@s.geo(3, 55)) { gen_filter }; seen = b[0] == :re && b[2] || %i[ws l].include?(b[0]) && b[1]
    fs = fs.reject { |f| x = f[0] == :hyphen && seen; seen ||= !%i[alow stop odd].include?(f[0]); x }     # the offsets of the parts need an unchanged token
    [b, fs]
  end
  def build(spec, t)
    b, fs = spec
    ts = case b[0]
         when :aws then A::AsciiWhiteSpaceTokenizer.new(t)
         when :ws then b[1].nil? ? A::WhiteSpaceTokenizer.new(t) : A::WhiteSpaceTokenizer.new(t, b[1])
         when :al then A::AsciiLetterTokenizer.new(t)
         when :l then b[1].nil? ? A::LetterTokenizer.new(t) : A::LetterTokenizer.new(t, b[1])
         when :as then A::AsciiStandardTokenizer.new(t)
         when :std then A::StandardTokenizer.new(t)
         when :comma then CommaTokenizer.new(t)
         when :re then b[2] ? (pr = Procs[b[2]]; A::RegExpTokenizer.new(t, fresh(b[1])) { |x| hook; pr[x] }) : A::RegExpTokenizer.new(t, fresh(b[1]))
         end
    fs.each do |f|
      ts = case f[0]
           when :alow then A::AsciiLowerCaseFilter.new(ts)
           when :low then A::LowerCaseFilter.new(ts)
           when :stop then f[2] ? A::StopFilter.new(ts) : A::StopFilter.new(ts, f[1].map { |w| w.size.odd? ? w.to_sym : w.dup })
           when :map then A::MappingFilter.new(ts, f[1])
           when :hyphen then A::HyphenFilter.new(ts)
           when :stem then f[1] == 'english' ? A::StemFilter.new(ts) : f[1].size.odd? ? A::StemFilter.new(ts, f[1].to_sym) : A::StemFilter.new(ts, f[1], "UTF-8")
           else RubyFilter.new(ts, f[0]) end
    end
    ts
  end
  def fresh(i) = Regexp.new(Regs[i].source, Regs[i].options)
  # ---- analyzers: [kind, ..]
  def gen_an(deep = true)
    case @s.weighted([2, 2, 2, 2, 3, 3, 4, deep ? 5 : 0, 5, 1])
    when 0 then [:aws, @s.pick([nil, false, true])] when 1 then [:ws, @s.pick([nil, false, true])] when 2 then [:al, @s.pick([nil, false, true])] when 3 then [:l, @s.pick([nil, false, true])]
    when 4, 5 then k = @uni ? :std : @s.pick(%i[as std]); [k, @s.pick([nil, nil, true, false]), @s.draw(2) == 0 ? nil : Array.new(@s.geo(5, 80)) { @s.pick(Stops) }]
    when 6 then [:re, @s.draw(Regs.size - (@uni ? 3 : 0)), @s.draw(2) == 0 ? nil : @s.pick(procs), @s.pick([nil, true, false])]
    when 7 then h = {}; @s.geo(3, 70).times { h[@s.pick(%i[a b c])] = gen_an(false) }; [:pfa, gen_an(false), h]
    when 8 then [:ruby, gen_spec] else [:sub] end
  end
  # what the analyzer does to a field, as a stack
  def stack(a, field)
    case a[0]
    when :aws then [[:aws], a[1] ? [[:alow]] : []]
    when :ws then [[:ws, a[1]], []]
    when :al then [[:al], a[1] == false ? [] : [[:alow]]]
    when :l then [[:l, a[1] != false], []]
    when :as, :std then [[a[0]], (a[1] == false ? [] : [[a[0] == :as ? :alow : :low]]) + [[:stop, a[2] || A::FULL_ENGLISH_STOP_WORDS.map(&:b)], [:hyphen]]]
    when :re then [[:re, a[1], a[2]], a[3] == false ? [] : [[:low]]]
    when :pfa then stack(a[2][field] || a[1], field)
    when :ruby then a[1]
    when :sub then [[:ws, false], [[:stop, %w[ab the]]]] end
  end
  def build_an(a)
    low = lambda { |k, v| v.nil? ? k.new : k.new(v) }
    case a[0]
    when :aws then low[A::AsciiWhiteSpaceAnalyzer, a[1]] when :ws then low[A::WhiteSpaceAnalyzer, a[1]]
    when :al then low[A::AsciiLetterAnalyzer, a[1]] when :l then low[@s.draw(2) == 0 ? A::LetterAnalyzer : A::Analyzer, a[1]]
    when :as, :std then k = a[0] == :as ? A::AsciiStandardAnalyzer : A::StandardAnalyzer; w = a[2] && a[2].map { |x| x.size.odd? ? x.to_sym : x.dup }
      a[1].nil? ? (w ? k.new(w) : k.new) : k.new(w, a[1])
    when :re then args = [fresh(a[1])]; args << a[3] unless a[3].nil?; pr = Procs[a[2]]; a[2] ? A::RegExpAnalyzer.new(*args) { |x| hook; pr[x] } : A::RegExpAnalyzer.new(*args)
    when :pfa then p = A::PerFieldAnalyzer.new(build_an(a[1])); a[2].each { |f, x| @s.draw(2) == 0 ? p[f] = build_an(x) : p.add_field(f.to_s, build_an(x)) }; p
    when :ruby then StackAnalyzer.new(self, a[1])
    when :sub then SubAnalyzer.new(false) end
  end
  def show(x) = x.inspect.gsub(/, \[\[?"[^\]]*"\]\]/, '')[0, 300]
  # ---- streams
  def open_stream
    t, std = text
    if @an && @s.draw(2) == 0
      f = @s.pick(%i[a b c d]); spec = stack(@an, f); ts = stress { @analyzer.token_stream(@s.draw(3) == 0 ? f.to_s : f, t) }; how = "analyzer, field #{f}"
      kind = :an; @more = true
    else
      spec = gen_spec; ts = stress { build(spec, t) }; how = show(spec); kind = spec[1].empty? ? :base : :filter
    end
    @c.t "stream #{@streams.size}: #{how} of #{t.inspect[0, 300]}"; @c.label("base.#{spec[0][0]}"); spec[1].each { |f| @c.label("filter.#{f[0]}"); @more = true }
    set = kind == :base || kind == :an && !%i[ruby sub pfa].include?(@an[0]); cmp("text", ts.text.b, t.b) if set
    @streams << { :ts => ts, :spec => spec, :t => t, :want => tokens(spec, t, std), :at => 0, :kind => kind, :set => set }
  end
  def read(st, n)
    n.times do
      k = stress { st[:ts].next }; w = st[:want][st[:at]]; st[:at] += 1 if w
      if k.nil? || w.nil? then cmp("token #{st[:at]} of stream #{@streams.index(st)}", k && [k.text.b, k.start, k.end, k.pos_inc], w); return end
      got = [k.text.b, k.start, k.end, k.pos_inc]; cmp("token #{st[:at] - 1} of stream #{@streams.index(st)} (#{show(st[:spec])} of #{st[:t].inspect[0, 200]})", got, w); @n += 1
      @last, @lastw = k, w if @s.chance(1, 4)
    end
  end
  def token_ops
    cmp("an earlier token", [@last.text.b, @last.start, @last.end, @last.pos_inc], @lastw) if @last
    return unless @s.draw(4) == 0
    l = Array.new(2 + @s.draw(4)) { a = @s.draw(3); [word(3), a, a + @s.draw(3), @s.draw(3)] }
    k = stress { l.map { |x| x[3] == 1 ? A::Token.new(*x[0, 3]) : A::Token.new(*x) } }
    got = k.sort.map { |x| [x.start, x.end, x.text.b] }; cmp("sorted tokens", got, l.map { |x| [x[1], x[2], x[0]] }.sort)
    x = k[0]; cmp("to_s", x.to_s, "token[\"#{l[0][0]}\":#{l[0][1]}:#{l[0][2]}:#{l[0][3]}]")
    x.text = "q#{@s.draw(9)}"; x.start = 5; x.end = 9; x.pos_inc = 4; GC.start if @s.chance(1, 8); cmp("changed token", x.to_s, "token[\"#{x.text}\":5:9:4]")
    cmp("compared tokens", [k[1] < k[0], k[1] == k[0]], [([k[1].start, k[1].end, k[1].text.b] <=> [5, 9, x.text.b]) < 0, [k[1].start, k[1].end, k[1].text.b] == [5, 9, x.text.b]])
  end
  # ---- the analyzer in an index and in a query parser
  def positions(l) = (p = -1; h = Hash.new { |a, b| a[b] = [] }; l.each { |vs| vs.each { |x, _, _, i| p += i; h[x] << p } }; h)
  def index_docs
    w = Ferret::Index::IndexWriter.new(:dir => (dir = Ferret::Store::RAMDirectory.new), :create => true, :analyzer => @analyzer, :max_buffered_docs => (mb = @s.pick([2, 10000])), :field_infos => Ferret::Index::FieldInfos.new(:term_vector => :with_positions_offsets))
    docs = Array.new(1 + @s.geo(3, 70)) do
      want = {}; d = {}
      %i[a b c].each do |f|
        next if @s.draw(3) == 0
        vs = Array.new(1 + (@s.chance(1, 4) ? 1 : 0)) { text(6) }; d[f] = vs.size == 1 ? vs[0][0] : vs.map(&:first)
        want[f] = vs.map { |t, std| tokens(stack(@an, f), t, std) }
      end
      @c.t "index #{d.inspect[0, 400]}"; mb > 2 && d.to_s.size < 100 ? stress { w << d } : w << d; gc; want
    end
    w.close; r = Ferret::Index::IndexReader.new(dir)
    docs.each_with_index do |want, n|
      want.each do |f, l|
        next if l.flatten(1).any? { |x| x[0].empty? || x[0].include?("\0") }
        tv = r.term_vector(n, f); exp = positions(l); got = {}; tv && tv.terms.each { |t| got[t.text.b] = t.positions }
        cmp("terms and positions of field #{f} of document #{n}", got.sort, exp.sort); @n += exp.size
      end
    end
    r.close; @more = true; @c.label("indexed")
  end
  def parse
    qp = Ferret::QueryParser.new(:analyzer => @analyzer, :default_field => :a, :fields => %i[a b c], :tokenized_fields => %i[a b c], :handle_parse_errors => false)
    (2 + @s.draw(5)).times do
      f = @s.pick(%i[a b c]); w = Array.new(1 + @s.geo(5, 70)) { 97 + @s.draw(4) }.pack('C*')
      l = tokens(stack(@an, f), w, [[w, 0, w.size, 1]]); @c.t "query #{f}:#{w}"
      q = stress { qp.parse("#{f}:#{w}") }.to_s(:zz); gc
      cmp("query #{f}:#{w}", q.b, l.empty? ? '' : "#{f}:#{l[0][0]}") if l.size < 2 && l.none? { |x| x[0] !~ /\A[a-zA-Z]+\z/n }
    end
    @c.label("parsed")
  end
  def run
    if @s.draw(3) > 0 then @an = gen_an; @c.label("analyzer.#{@an[0]}"); @c.t "analyzer #{show(@an)}"; @analyzer = stress { build_an(@an) } end
    (2 + @s.geo(30, 93)).times do
      gc
      case @s.weighted([4, 16, 3, 2, 1, @an ? 2 : 0, @an ? 1 : 0, @an ? 1 : 0])
      when 0 then open_stream
      when 1 then read(@s.pick(@streams), 1 + @s.draw(6)) if @streams.any?
      when 2
        next if @streams.empty?
        st = @s.pick(@streams); t, std = text; @c.t "stream #{@streams.index(st)}: text = #{t.inspect[0, 300]}"
        stress { st[:ts].text = t }; sp = st[:spec]
        st[:t] = t; st[:want] = tokens(sp, t, std); st[:at] = 0; st[:set] = true; @more = true
      when 3 then st = @s.pick(@streams) if @streams.any?; cmp("text of stream #{@streams.index(st)}", st[:ts].text.b, st[:t].b) if st && st[:set]
      when 4 then token_ops
      when 5 then index_docs
      when 6 then parse
      when 7
        if @an[0] == :pfa && @s.draw(4) > 0
          f = @s.pick(%i[a b c]); x = gen_an(false); @an[2][f] = x; @c.t "field #{f}: #{show(x)}"; @analyzer[f] = build_an(x)
        elsif @s.draw(4) == 0 then @c.t "drop the analyzer"; @an = @analyzer = nil end
      end
      @streams.delete_at(@s.draw(@streams.size)) if @streams.size > 4
    end
    @streams.each { |st| read(st, st[:want].size - st[:at] + 1 + @s.draw(2)) }
    @c.nontrivial = @n >= 6 && @more
  end
end
P31 = lambda do |c|
  Ferret.locale = "C.UTF-8"
  AnalysisMachine.new(c).run
end
