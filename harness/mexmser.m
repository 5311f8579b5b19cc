1;
function c = N(x), c = num2cell(double(x(:)')); end
function s = Q(x), s = sprintf('%.17g', x); end
function v = R(n), v = floor(rand * n); end
function c = cols(x), c = {}; for k = 1:size(x, 2), s = {}; for j = 1:size(x, 1), s{j} = Q(double(x(j, k))); end, c{k} = s; end, end
a = argv(); fid = fopen([a{1} '/mser.ndjson'], 'w'); seed = str2num(a{2}); rand('state', seed);
n = 220; if strcmp(a{3}, 'thorough'), n = 2500; end
for t = 1:n
  nd = 2 + (rand < .2); d = 1 + floor(rand(1, nd) * {6, 6, 3}{nd}); if nd == 3 && d(3) == 1, d(3) = 2; end
  top = {3, 6, 12, 256}{1 + R(4)}; x = uint8(floor(rand(d) * top)); if rand < .5, x = x * uint8(10); end, if rand < .3, x = 255 - x; end
  P = struct('Delta', 5, 'MaxArea', .75, 'MinArea', 3 / numel(x), 'MaxVariation', .25, 'MinDiversity', .2, 'BrightOnDark', 1, 'DarkOnBright', 1);
  o = {}; V = {{1, 2, 5, 15}, {1, .5, .9}, {0, .1, .2}, {.25, 1, 5, 1000}, {0, .2, .5, 1}, {0, 1}, {0, 1}}; nm = fieldnames(P);
  for k = 1:7
    if rand < {.5, .3, .7, .8, .5, .2, .2}{k}, P.(nm{k}) = V{k}{1 + R(numel(V{k}))}; o = [o, {nm{k}, P.(nm{k})}]; end
  end
  ev = struct('e', 'MexMser', 'dims', {N(size(x))}, 'img', {N(x)}, 'delta', P.Delta, 'amax', Q(P.MaxArea), 'amin', Q(P.MinArea), 'vmax', Q(P.MaxVariation), 'div', Q(P.MinDiversity), 'bright', P.BrightOnDark == 1, 'dark', P.DarkOnBright == 1);
  try
    [r, f] = vl_mser(x, o{:}); r1 = vl_mser(x, o{:}); ev.same = isequal(r, r1) && isa(r, 'double'); ev.r = N(r); ev.f = cols(f); ev.ft = {}; if nd == 2 && size(f, 2), ev.ft = cols(vl_ertr(f)); end
  catch err, ev.e = 'Crash'; ev.msg = err.message; end
  fprintf(fid, '%s\n', jsonencode(ev));
  if mod(t, 20) == 0
    b = {{'Delta', -1}, {'MaxArea', 1.5}, {'MaxArea', -.1}, {'MinArea', -.5}, {'MinArea', 2}, {'MaxVariation', -1}, {'MinDiversity', -.1}, {'MinDiversity', 1.1}, {'BrightOnDark', 2}, {'DarkOnBright', 3}, {'Nonsense', 1}}{1 + mod(t / 20, 11)};
    ev = struct('e', 'BadOpt', 'opt', b{1}, 'refused', false); try vl_mser(x, b{:}); catch, ev.refused = true; end
    fprintf(fid, '%s\n', jsonencode(ev));
  end
end
fclose(fid);
