1;
function s = S(x)
  x = double(x(:)'); s = cell(1, numel(x)); for k = 1:numel(x), s{k} = sprintf('%.17g', x(k)); end
end
function c = N(x), c = num2cell(double(x(:)')); end
function v = R(n), v = floor(rand * n); end
a = argv(); fid = fopen([a{1} '/inthist.ndjson'], 'w'); seed = str2num(a{2}); rand('state', seed);
n = 160; if strcmp(a{3}, 'thorough'), n = 1200; end
for t = 1:n
  d = [1 + R(6), 1 + R(6), 1 + R(3)]; K = R(5); lab = uint32(floor(rand(d) * (K + 1)));
  nl = 0; if rand < .5, nl = max(0, K + R(3) - 1); end
  mc = {'none', 'uint32', 'double'}{1 + R(3)}; mass = []; arg = {};
  if strcmp(mc, 'uint32'), mass = uint32(floor(rand(d) * {5, 2^32}{1 + (rand < .2)})); elseif strcmp(mc, 'double'), mass = floor(rand(d) * 100) / 4 - 5; end
  if ~isempty(mass), arg = {'Mass', mass}; end, if nl > 0, arg = [arg, {'NumLabels', nl}]; end
  if mod(t, 8) == 0 && ~isempty(mass)
    e = [1 1 1]; e(1 + R(3)) += 1; m = ones(d + e, class(mass)); if rand < .4, m = m(1:d(1), 1:d(2), 1:d(3)); m = cat(3, m, m(:, :, 1)); end, if rand < .4 && d(3) > 1, m = m(1:min(end, d(1)), 1:min(end, d(2)), 1); end
    if isequal(size(m), size(mass)), continue; end
    ev = struct('e', 'BadMass', 'd', {N(d)}, 'md', {N(size(m))}, 'refused', false); try vl_inthist(lab, 'Mass', m); catch, ev.refused = true; end
    fprintf(fid, '%s\n', jsonencode(ev)); continue
  end
  ev = struct('e', 'Hist', 'd', {N(d)}, 'lab', {N(lab)}, 'mc', mc, 'mass', {S(mass)}, 'nl', nl, 'refused', false, 'rc', '', 'K', 0, 'r', {{}}, 'boxes', {{}}, 'together', true);
  try h = vl_inthist(lab, arg{:}); catch, ev.refused = true; fprintf(fid, '%s\n', jsonencode(ev)); continue; end
  ev.rc = class(h); ev.K = size(h, 3); ev.r = S(h); bx = zeros(4, 0, 'uint32'); ref = [];
  for k = 1:12
    b = uint32([1 + R(d(1)), 1 + R(d(2)), 1 + R(d(1)), 1 + R(d(2))]); if rand < .7, b = [min(b(1), b(3)), min(b(2), b(4)), max(b(1), b(3)), max(b(2), b(4))]; end
    if rand < .1, b(1 + R(4)) = {0, d(1) + 1, d(2) + 1, 100}{1 + R(4)}; end
    o = struct('b', {N(b)}, 'refused', false, 'h', {{}}, 'c', '');
    try q = vl_sampleinthist(h, b'); o.h = S(q); o.c = class(q); if size(q, 2) != 1, o.c = 'shape'; end, if size(h, 3) > 0, bx(:, end + 1) = b'; ref = [ref, q(:)]; end, catch, o.refused = true; end
    ev.boxes{k} = o;
  end
  if size(h, 3) > 0 && ~isempty(bx), ev.together = isequal(vl_sampleinthist(h, bx), ref); end
  fprintf(fid, '%s\n', jsonencode(ev));
end
fclose(fid);
