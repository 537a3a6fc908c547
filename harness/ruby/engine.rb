# Choice-sequence property testing for the Ruby layer: generation from recorded choices, worker processes,
# crash and hang detection, shrinking, replay files.  Same protocol as the C++ engine.
require 'json'
require 'tmpdir'
require 'fileutils'
require 'digest'
STDOUT.sync = true

class CaseFail < StandardError
  attr_reader :sig
  def initialize(sig, msg); super(msg); @sig = sig; end
end
class Src
  attr_reader :log
  def initialize(rng, replay = nil, sink = nil); @rng = rng; @replay = replay; @i = 0; @log = []; @sink = sink; end
  def draw(n)
    return 0 if n <= 1
    v = if @replay then (@replay[@i] || 0) % n else @rng.rand(n) end
    @i += 1; @log << v
    @sink.syswrite("#{v} ") if @sink
    v
  end
  def chance(a, b) = draw(b) >= b - a          # 0 means no
  def pick(a) = a[draw(a.size)]
  def geo(max, pct) = (n = 0; n += 1 while n < max && draw(100) >= 100 - pct; n)
  def weighted(ws) = (r = draw(ws.sum); ws.each_with_index { |w, i| return i if r < w; r -= w })
end
class Ctx
  attr_reader :s, :trace, :labels, :dir
  attr_accessor :nontrivial
  def initialize(src, dir, verbose = false); @s = src; @trace = []; @labels = Hash.new(0); @nontrivial = false; @dir = dir; @verbose = verbose; end
  def clean(x) = x.dup.force_encoding('UTF-8').scrub { |b| b.bytes.map { |y| '\\x%02x' % y }.join }
  def t(x) = (x = clean(x); puts x if @verbose; @trace << x if @trace.size < 400)
  def label(l) = @labels[l] += 1
  def fail(sig, msg) = raise(CaseFail.new(clean(sig), clean(msg)))
  def check(ok, sig, msg = nil) = (ok or fail(sig, msg || yield))
end

class Engine
  WORKERS = 8
  HANG = 40
  def initialize(props) = @props = props
  def arg(name, d = nil) = (i = ARGV.index(name)) ? ARGV[i + 1] : d
  def rng(seed, n) = Random.new(Digest::SHA256.hexdigest("#{@id}/#{seed}/#{n}").to_i(16) & ((1 << 62) - 1))

  def run_one(src, dir, verbose = false)
    GC.enable; GC.start if (@since_gc = (@since_gc || 0) + 1) % 20 == 0
    GC.disable                                  # collections happen only where the case asks for one, so cases repeat
    FileUtils.mkdir_p(dir); c = Ctx.new(src, dir, verbose)
    begin
      @prop[:run].call(c); r = nil
    rescue CaseFail => e
      r = [e.sig, e.message]
    rescue SystemStackError, NoMemoryError, StandardError, NotImplementedError => e
      r = ["error #{e.class}", "unexpected #{e.class}: #{c.clean(e.message)} (#{(e.backtrace || [])[0, 4].join(' < ')})"]
    end
    FileUtils.rm_rf(dir)
    [r, c]
  end
  # runs one case in a child process -> [failure or nil, choices]
  def child(choices = nil, seed = nil, n = nil)
    cf = "#{@scratch}/choices"; rf = "#{@scratch}/result"; File.delete(rf) if File.exist?(rf)
    pid = fork do
      $stdout.reopen('/dev/null'); $stderr.reopen('/dev/null')
      f = File.open(cf, 'w'); src = choices ? Src.new(nil, choices, f) : Src.new(rng(seed, n), nil, f)
      r, = run_one(src, "#{@scratch}/child")
      File.write(rf, JSON.dump([r])); exit!(0)
    end
    t0 = Time.now; st = nil
    loop { _, st = Process.waitpid2(pid, Process::WNOHANG); break if st; if Time.now - t0 > HANG then Process.kill(:KILL, pid); Process.waitpid(pid); break end; sleep 0.002 }
    used = File.exist?(cf) ? File.read(cf).split.map(&:to_i) : []
    FileUtils.rm_rf("#{@scratch}/child")
    return [["hang", "the case did not finish within #{HANG} s"], used] unless st
    return [["crash", "the process died: #{st}"], used] unless File.exist?(rf)
    [JSON.parse(File.read(rf))[0], used]
  end
  # runs the cases `list` of `seed` one after another in one child process -> true if it fails or dies
  def sequence(seed, list)
    rf = "#{@scratch}/seq"; File.delete(rf) if File.exist?(rf)
    pid = fork do
      $stdout.reopen('/dev/null'); $stderr.reopen('/dev/null')
      bad = list.any? { |n| r, = run_one(Src.new(rng(seed, n)), "#{@scratch}/child"); r }
      File.write(rf, bad ? 'F' : 'P'); exit!(0)
    end
    th = Thread.new { sleep HANG * 5; Process.kill(:KILL, pid) rescue nil }; Process.waitpid(pid); th.kill
    FileUtils.rm_rf("#{@scratch}/child")
    !File.exist?(rf) || File.read(rf) == 'F'
  end
  def shrink(choices, sig, budget)
    stop = Time.now + budget; best = choices; tried = 0
    attempt = lambda do |cand|
      return false if Time.now > stop || cand == best
      tried += 1; r, used = child(cand)
      return false unless r && r[0] == sig
      used = used[0, used.size]; cand = used if used.size <= cand.size
      best = cand; true
    end
    loop do
      before = best
      size = [best.size / 2, 1].max
      while size >= 1
        i = 0
        i += size unless attempt.call(best[0, i] + (best[i + size..] || [])) while i < best.size && Time.now < stop
        size /= 2
      end
      i = 0
      while i < best.size && Time.now < stop
        if best[i] != 0
          attempt.call(best[0, i] + [0] + best[i + 1..]) || attempt.call(best[0, i] + [best[i] / 2] + best[i + 1..]) || attempt.call(best[0, i] + [best[i] - 1] + best[i + 1..])
        end
        i += 1
      end
      break if best == before || Time.now > stop
    end
    [best, tried]
  end

  def main
    if (f = arg('--replay'))
      txt = File.read(f); @id = txt[/^property (\S+)/, 1]; @prop = @props[@id]
      @scratch = Dir.mktmpdir("vprb"); at_exit { FileUtils.rm_rf(@scratch) if Process.pid == $main }; $main = Process.pid
      if (q = txt[/^sequence (.*)$/, 1])
        sd, *list = q.split.map(&:to_i)
        list.each { |n| puts "=== case #{n}"; r, = run_one(Src.new(rng(sd, n)), "#{@scratch}/case", true); if r then puts "--- FAILED #{r[0]}\n#{r[1]}"; exit 1 end }
        puts "--- passed"; exit 0
      end
      ch = txt[/^choices(.*)$/, 1].split.map(&:to_i)
      r, = run_one(Src.new(nil, ch), "#{@scratch}/case", true)
      puts(r ? "--- FAILED #{r[0]}\n#{r[1]}" : "--- passed"); exit(r ? 1 : 0)
    end
    @id = arg('--prop'); @prop = @props[@id] or abort("unknown property")
    seed = arg('--seed', '1').to_i; tier = arg('--tier', 'quick'); out = arg('--out'); max_wall = arg('--max-wall', '420').to_f; budget = arg('--shrink', '60').to_f
    cases = (arg('--cases') || @prop[tier == 'quick' ? :quick : :thorough]).to_i
    FileUtils.mkdir_p(out); t0 = Time.now
    base = File.writable?('/dev/shm') ? '/dev/shm' : nil
    @scratch = Dir.mktmpdir("vprb", base); $main = Process.pid; at_exit { FileUtils.rm_rf(@scratch) if Process.pid == $main }
    if (n = arg('--case'))
      r, = run_one(Src.new(rng(seed, n.to_i)), "#{@scratch}/case", true); puts(r ? "--- FAILED #{r[0]}\n#{r[1]}" : "--- passed"); exit(r ? 1 : 0)
    end
    workers = {}; stats = { n: 0, nt: 0, keys: {}, labels: Hash.new(0), samples: [], fails: [] }
    start = lambda do |w, from|
      rd, wr = IO.pipe
      pid = fork do
        rd.close; $stderr.reopen('/dev/null') unless ENV['VP_DEBUG']
        n = from
        while n < cases
          wr.syswrite("S #{n}\n")
          r, c = run_one(src = Src.new(rng(seed, n)), "#{@scratch}/w#{n}")
          if r then wr.syswrite("F #{n} #{JSON.dump(r)}\n")
          else
            m = "D #{n} #{JSON.dump([c.nontrivial ? Digest::MD5.hexdigest(src.log.pack('w*'))[0, 16] : nil, c.labels, (n < 3 || n % 5000 == 7) ? c.trace.first(60).join("\n") : nil])}\n"
            wr.syswrite(m)
          end
          n += WORKERS
        end
        exit!(0)
      end
      wr.close; workers[rd] = { w: w, pid: pid, at: from, since: Time.now, buf: +'', inflight: nil }
    end
    WORKERS.times { |w| start.call(w, w) }
    capped = false
    until workers.empty?
      rs, = IO.select(workers.keys, nil, nil, 1)
      (rs || []).each do |io|
        k = workers[io]
        begin
          k[:buf] << io.read_nonblock(1 << 16)
          while (l = k[:buf].slice!(/\A.*\n/))
            case l[0]
            when 'S' then k[:inflight] = l[2..].to_i; k[:since] = Time.now
            when 'D' then _, _, j = l.split(' ', 3); key, labels, sample = JSON.parse(j)
              stats[:n] += 1; k[:inflight] = nil
              if key then stats[:nt] += 1; stats[:keys][key] = 1; stats[:samples] << sample if sample && stats[:samples].size < 4 end
              labels.each { |a, b| stats[:labels][a] += b }
            when 'F' then _, n, j = l.split(' ', 3); stats[:n] += 1; k[:inflight] = nil; stats[:fails] << [n.to_i, JSON.parse(j)]
            end
          end
        rescue IO::WaitReadable
        rescue EOFError
          Process.waitpid(k[:pid]); workers.delete(io); io.close
          if (n = k[:inflight]) && !capped && stats[:fails].empty?
            stats[:fails] << [n, ["crash", "the process died"]]; stats[:n] += 1
          end
        end
      end
      workers.each { |io, k| if k[:inflight] && Time.now - k[:since] > HANG then stats[:fails] << [k[:inflight], ["hang", "the case did not finish within #{HANG} s"]]; k[:inflight] = nil; Process.kill(:KILL, k[:pid]) end }
      if !capped && (stats[:fails].any? || Time.now - t0 > max_wall)
        capped = true; workers.each_value { |k| k[:inflight] = nil; Process.kill(:KILL, k[:pid]) rescue nil }
      end
    end
    violation = nil
    stats[:fails].sort.each do |n, (sig, msg)|
      r, ch = child(nil, seed, n)
      again = r ? 2.times.all? { x, = child(ch); x && x[0] == r[0] } : false
      list = (n % WORKERS..n).step(WORKERS).to_a
      if !again && list.size > 1 && list.size < 20_000 && 3.times.all? { sequence(seed, list) }
        puts "case #{n}: #{sig}: #{msg}: fails only after the cases before it in the same process"
        stop = Time.now + budget; size = (list.size - 1) / 2
        while size >= 1
          i = 0
          while i < list.size - 1 && Time.now < stop
            cand = list[0, i] + list[[i + size, list.size - 1].min..]
            if sequence(seed, cand) then list = cand else i += size end
          end
          size /= 2
        end
        puts "shrunk to the cases #{list.join(' ')}"
        f = File.expand_path("#{out}/#{@id}-seed#{seed}-case#{n}.replay")
        File.write(f, "property #{@id}\nfailure #{sig}: #{msg.gsub("\n", ' ')}\nsequence #{seed} #{list.join(' ')}\n")
        violation = f; break
      end
      unless again then puts "case #{n} (#{sig}: #{msg}) did not fail again when replayed; ignored"; next end
      puts "case #{n}: #{r[0]}: #{r[1]}"
      best, tried = shrink(ch, r[0], budget); r2, = child(best)
      puts "shrunk to #{best.size} choices (#{tried} candidates): #{r2 && r2[1]}"
      f = File.expand_path("#{out}/#{@id}-seed#{seed}-case#{n}.replay")
      tr = Ctx.new(Src.new(nil, best), "#{@scratch}/x"); tf = "#{@scratch}/trace"
      pid = fork { $stdout.reopen(tf); $stdout.sync = true; $stderr.reopen(tf + '.err'); run_one(Src.new(nil, best), "#{@scratch}/x", true); exit!(0) }
      th = Thread.new { sleep HANG; Process.kill(:KILL, pid) rescue nil }; Process.waitpid(pid); th.kill
      puts File.read(tf).lines.last(40).map { |l| l[0, 500].chomp }
      er = File.read(tf + '.err').scrub.lines; i = er.index { |l| l =~ /ERROR: AddressSanitizer/ }; puts er[i, 60].grep(/ERROR|of size|freed by|allocated by| in .*\.[chry]b?:\d/).first(24).map { |l| l[0, 200].chomp } if i
      File.write(f, "property #{@id}\nseed #{seed} case #{n}\nfailure #{(r2 || r).join(': ').gsub("\n", ' ')}\nchoices #{best.join(' ')}\n")
      violation = f; break
    end
    st = { evaluations: stats[:n], distinct_nontrivial: stats[:keys].size, rule: @prop[:rule], samples: stats[:samples].map { |x| x.encode('UTF-8', invalid: :replace, undef: :replace)[0, 1500] }, labels: stats[:labels], level: "exploration" }
    st[:capped] = true if capped && stats[:fails].empty?
    File.write("#{out}/#{@id}.stats.json", JSON.dump(st))
    puts "#{@id}: #{stats[:n]} cases, #{stats[:nt]} non-trivial (#{stats[:keys].size} distinct), #{(Time.now - t0).round(1)}s"
    if violation then puts "VIOLATION property=#{@id} replay=#{violation}"; exit 1 end
    exit 0
  end
end
