1;
function c = N(x), c = num2cell(double(x(:)')); end
function v = R(n), v = floor(rand * n); end
a = argv(); fid = fopen([a{1} '/erfill.ndjson'], 'w'); seed = str2num(a{2}); rand('state', seed);
n = 60; if strcmp(a{3}, 'thorough'), n = 600; end
for t = 1:n
  nd = 2 + R(3); d = 1 + floor(rand(1, nd) * {7, 7, 4, 3}{nd}); if rand < .15, d = [1 1]; d(1 + R(2)) = 1 + R(9); end
  x = uint8(floor(rand(d) * (1 + R(5)))); if rand < .2, x = uint8(floor(rand(d) * 256)); end
  x(rand(d) < .1) = {0, 255}{1 + R(2)};
  for k = 1:8
    s = 1 + R(numel(x)); if rand < .5, s = -s; end, if rand < .05, s = {0, numel(x) + 1, -numel(x) - 1}{1 + R(3)}; end
    ev = struct('e', 'Fill', 'd', {N(size(x))}, 'x', {N(x)}, 'er', s, 'refused', false);
    try r = vl_erfill(x, s); ev.rc = class(r); ev.r = N(r); catch, ev.refused = true; end
    fprintf(fid, '%s\n', jsonencode(ev));
  end
end
fclose(fid);
