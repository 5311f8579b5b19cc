a = argv(); fid = fopen([a{1} '/aibcut.ndjson'], 'w'); seed = str2num(a{2}); rand('state', seed); randn('state', seed);
n = 150; if strcmp(a{3}, 'thorough'), n = 900; end
for t = 1:n
  nv = 2 + floor(rand * 6); nl = 1 + floor(rand * 3); h = floor(rand(nl, nv) * 5);
  for k = 1:floor(rand * nv), if rand < .6, h(:, 1 + floor(rand * nv)) = 0; end, end
  if rand < .2, h(:, end) = 0; end
  if sum(sum(h) > 0) < 2, continue; end
  cn = rand < .35; ev = struct('e', 'Cut', 'nv', nv, 'nl', nl, 'h', h(:)', 'cn', cn);
  try
    if cn, [p, c] = vl_aib(h / sum(h(:)), 'ClusterNull'); q = vl_aib(h / sum(h(:)), 'ClusterNull'); else [p, c] = vl_aib(h / sum(h(:))); q = vl_aib(h / sum(h(:))); end
    ev.parents = double(p); ev.cls = class(p); ev.same = isequal(q, p);
    s = {}; for k = 1:numel(c), if isnan(c(k)), s{k} = 'nan'; else s{k} = sprintf('%.17g', c(k)); end, end; ev.costs = s;
    live = find(p(1:nv) > 0); cuts = {};
    for m = 1:nv
      [cut, map, short] = vl_aibcut(p, m);
      x = 1 + floor(rand(1, 6) * nv); y = vl_aibcutpush(map, x); hd = vl_aibcuthist(map, x); ha = vl_aibcuthist(map, x, 'nulls', 'append'); hf = vl_aibcuthist(map, x, 'nulls', 'first');
      cuts{m} = struct('n', m, 'cut', {num2cell(double(cut))}, 'map', double(map), 'short', double(short), 'x', x, 'y', double(y), 'hd', {num2cell(double(hd))}, 'ha', {num2cell(double(ha))}, 'hf', {num2cell(double(hf))});
    end
    ev.cuts = cuts;
    if ~isempty(live), d = live(1 + floor(rand(1, 7) * numel(live))); ev.data = double(d); ev.tree = double(vl_aibhist(p, double(d))); end
    w = floor(rand(1, nv) * 4); ev.counts = w; ev.treeh = double(vl_aibhist(p, w, 'hist'));
    ev.refused = false; try vl_aibhist(p, [1 nv + 1]); catch, ev.refused = true; end
  catch err
    ev = struct('e', 'Crash', 'in', err.message, 'h', h);
  end
  fprintf(fid, '%s\n', jsonencode(ev));
end
fclose(fid);
