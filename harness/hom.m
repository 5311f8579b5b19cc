1;
function s = num(v)
  s = {}; v = double(v(:)); for k = 1:numel(v), if isnan(v(k)), s{k} = 'nan'; elseif isinf(v(k)), s{k} = 'inf'; else s{k} = sprintf('%.17g', v(k)); end, end
end
function r = refused(f, varargin)
  r = false; try f(varargin{:}); catch, r = true; end
end
a = argv(); fid = fopen([a{1} '/mexhom.ndjson'], 'w'); seed = str2num(a{2}); rand('state', seed);
n = 40; if strcmp(a{3}, 'thorough'), n = 300; end
kn = {'inters', 'chi2', 'js'}; wn = {'uniform', 'rectangular'};
for t = 1:n
  k = 1 + floor(rand * 3); w = 1 + floor(rand * 2); order = floor(rand * 4); sz = {[3 2], [1 5], [4 1], [2 2 2], [0 3], 1, [1 2 ones(1, 21) 2]}{1 + floor(rand * 7)};
  x = 2 .^ (-3 + 4 * rand(sz)) .* sign(rand(sz) - .2); if rand < .2 && numel(x), x(1) = 0; end
  if rand < .3, x = single(x); end
  args = {}; gamma = 1; period = -1;
  if w == 1 || rand < .3, args = [args {{'window', 'Window'}{1 + (rand < .5)}, wn{w}}]; end
  if rand < .3, gamma = .5 + rand; args = [args {'gamma', gamma}]; end
  if rand < .3, period = 2 + 10 * rand; args = [args {'Period', period}]; end
  names = {{'kinters', 'kl1', 'KINTERS'}, {'kchi2', 'KCHI2'}, {'kjs'}}{k}; name = names{1 + floor(rand * numel(names))};
  if rand < .5, args = [args {name}]; elseif k ~= 2 || rand < .5, args = [args {'kernel', name}]; end
  y = vl_homkermap(x, order, args{:});
  os = size(y);
  fprintf(fid, '%s\n', jsonencode(struct('e', 'Mex', 'kernel', kn{k}, 'window', wn{w}, 'order', order, 'gamma', sprintf('%.17g', gamma), 'period', sprintf('%.17g', period), 'single', isa(x, 'single'), ...
      'size', size(x), 'outsize', os, 'outclass', class(y), 'xs', {num(x)}, 'fs', {num(y)})));
end
bad = {{int32(1), 1}, {1, -1}, {1, [1 2]}, {1}, {1, 1, 'gamma', 0}, {1, 1, 'period', 0}, {1, 1, 'window', 'round'}, {1, 1, 'gamma', [1 2]}, {1, 1, 'kernel', 'other'}, {1, 1, 'window', 1}, {'a', 1}};
for k = 1:numel(bad)
  fprintf(fid, '%s\n', jsonencode(struct('e', 'Refuse', 'refused', refused(@vl_homkermap, bad{k}{:}))));
end
fclose(fid);
