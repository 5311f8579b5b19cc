1;
function s = S(x)   % numbers travel as strings
  x = double(x(:)'); s = cell(1, numel(x));
  for k = 1:numel(x), if isnan(x(k)), s{k} = 'nan'; elseif isinf(x(k)), s{k} = {'inf', '-inf'}{1 + (x(k) < 0)}; else s{k} = sprintf('%.17g', x(k)); end, end
end
function c = N(x), c = num2cell(double(x(:)')); end
function v = R(n), v = floor(rand * n); end
function x = ints(c, d)   % random elements of class c
  switch c
    case {'double', 'single'}, x = floor(rand(d) * 41) - 20; if rand < .1 && prod(d) > 0, x(1 + R(numel(x))) = {Inf, -Inf, NaN}{1 + R(3)}; end
    case 'int64', x = floor(rand(d) * 2001) - 1000;
    case 'uint64', x = floor(rand(d) * 2001);
    otherwise
      lo = double(intmin(c)); hi = double(intmax(c)); x = floor(rand(d) * 20); m = rand(d);
      y = lo + floor(rand(d) * (hi - lo + 1)); x(m < .4) = y(m < .4); x(m < .1) = hi; x(m > .9) = lo;
  end
  x = cast(x, c);
end
function go(fid, ev), fprintf(fid, '%s\n', jsonencode(ev)); end
function d = dims(n, m), d = 1 + floor(rand(1, n) * m); end
a = argv(); fid = fopen([a{1} '/binning.ndjson'], 'w'); seed = str2num(a{2}); rand('state', seed); randn('state', seed);
K = 1; if strcmp(a{3}, 'thorough'), K = 6; end
cl = {'double', 'single', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64'};
for t = 1:700 * K
  c = cl{1 + mod(t, 10)}; ic = cl{1 + mod(floor(t / 10), 10)}; dim = 0; n = 2 + R(3);
  if rand < .65, dim = 1 + R(n + (rand < .15)); end
  hd = dims(n, 4); if rand < .5, hd(1 + R(n)) = 1; end
  if dim == 0
    bd = dims(2, 4); if rand < .1, bd(2) = 0; end, top = prod(hd);
  else
    bd = hd; bd(min(dim, n)) = 1 + R(4); if rand < .08, bd(min(dim, n)) = 0; end
    if rand < .1, bd(1 + R(n)) = 1 + R(4); end, if rand < .05, bd = [bd, 1 + R(3)]; end, if rand < .05, bd = bd(1:end - 1); if numel(bd) < 2, bd = [bd 1]; end, end
    top = hd(min(dim, n));
  end
  if any(hd == 0), continue; end
  h = ints(c, hd); b = floor(rand(bd) * (top + 1)); if rand < .12 && numel(b), b(1 + R(numel(b))) = {top + 1, top + 3, -1, top + 100}{1 + R(4)}; end
  b = cast(b, ic);
  if rand < .3, x = ints(c, [1 1]); elseif rand < .08, x = ints(c, dims(2, 4)); elseif rand < .04, x = ints(c, [0 0]); else x = ints(c, bd); end
  ev = struct('e', 'Binsum', 'cls', c, 'icls', ic, 'dim', dim, 'hd', {N(size(h))}, 'h', {S(h)}, 'xd', {N(size(x))}, 'x', {S(x)}, 'bd', {N(size(b))}, 'b', {N(b)});
  try
    if dim, r = vl_binsum(h, x, b, dim); else r = vl_binsum(h, x, b); end
    ev.refused = false; ev.rc = class(r); ev.rd = N(size(r)); ev.r = S(r);
  catch, ev.refused = true; end
  go(fid, ev);
end
for t = 1:250 * K
  e = sort(floor(rand(1, R(7)) * 9)); if rand < .2 && numel(e), e(1) = -Inf; end, if rand < .2 && numel(e), e(end) = Inf; end
  x = floor(rand(dims(1 + R(3), 4)) * 22) / 2 - .5; if numel(x), x(1 + R(numel(x))) = {Inf, -Inf, 3}{1 + R(3)}; end, if rand < .5, e = e'; end
  ev = struct('e', 'Search', 'b', {S(e)}, 'xd', {N(size(x))}, 'x', {S(x)});
  try r = vl_binsearch(e, x); ev.rd = N(size(r)); ev.r = S(r); catch err, ev.e = 'Crash'; end
  go(fid, ev);
end
for t = 1:250 * K
  c = cl{1 + mod(t, 10)}; n = 2 + R(3); d = dims(n, 4); if rand < .5, d(1 + R(n)) = 1; end, if rand < .05, d(1 + R(n)) = 0; end
  x = ints(c, d); x(isnan(x)) = 2; dim = 0; if rand < .7, dim = 1 + R(n + (rand < .1)); end
  ev = struct('e', 'Cummax', 'cls', c, 'dim', dim, 'xd', {N(size(x))}, 'x', {S(x)});
  try
    if dim, r = vl_cummax(x, dim); else r = vl_cummax(x); end
    ev.refused = false; ev.rc = class(r); ev.rd = N(size(r)); ev.r = S(r);
  catch, ev.refused = true; end
  go(fid, ev);
end
for t = 1:350 * K
  n = 2 + R(3); d = 1 + floor(rand(1, n) * (7 - n)); d(1) = d(1) + R(3); if rand < .3, d(3:end) = 1 + R(3); end, if rand < .25, d = [1 1]; d(1 + R(2)) = 3 + R(12); end
  if rand < .1, d = [3 + R(4), 1 + R(2), 5 + R(4)]; end
  x = floor(rand(d) * {3, 6, 40}{1 + R(3)}) - 1; p = -1; th = -Inf; if rand < .6, th = R(5); end, if rand < .5, p = 1 + R(ndims(x) + (rand < .1)); end, if rand < .5 && ndims(x) > 2 && size(x, 1) > 2, x(2, :) = 50; p = 1; end
  if rand < .1, x(1 + R(numel(x))) = {Inf, -Inf}{1 + R(2)}; end
  ev = struct('e', 'Local', 'xd', {N(size(x))}, 'x', {S(x)}, 't', {S(th)}, 'p', p); ev.t = ev.t{1};
  try
    if p > 0, r = vl_localmax(x, th, p); elseif isinf(th), r = vl_localmax(x); else r = vl_localmax(x, th); end
    ev.refused = false; ev.r = N(r);
  catch, ev.refused = true; end
  go(fid, ev);
end
for t = 1:300 * K
  n = 2 + R(2); d = dims(n, 4); if rand < .4, d = [1 1]; d(1 + R(2)) = 1 + R(6); end
  e = sort(floor(rand(1, 2 + R(4)) * 8)); if rand < .15, e(1) = -Inf; end, if rand < .15, e(end) = Inf; end
  x = floor(rand(d) * 20) / 2 - 1; w = floor(rand(d) * 7) - 2; if rand < .4, x(1 + R(numel(x))) = {NaN, Inf, -Inf}{1 + R(3)}; end, if rand < .25, w(1 + R(numel(w))) = NaN; end
  if rand < .1, w = 2; end, dim = 0; if rand < .6, dim = 1 + R(ndims(x)); end
  ev = struct('e', 'Whistc', 'xd', {N(size(x))}, 'x', {S(x)}, 'w', {S(w)}, 'edges', {S(e)}, 'dim', dim);
  try
    if dim, r = vl_whistc(x, w, e, dim); else r = vl_whistc(x, w, e); end
    ev.rd = N(size(r)); ev.r = S(r);
  catch err, ev.e = 'Crash'; ev.msg = err.message; end
  go(fid, ev);
end
fclose(fid);
