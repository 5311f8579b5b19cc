1;
function s = num(v)
  s = {}; v = double(v(:)); for k = 1:numel(v), if isnan(v(k)), s{k} = 'nan'; elseif isinf(v(k)), s{k} = 'inf'; else s{k} = sprintf('%.17g', v(k)); end, end
end
function r = refused(f, varargin)
  r = false; try f(varargin{:}); catch, r = true; end
end
a = argv(); fid = fopen([a{1} '/mexrot.ndjson'], 'w'); seed = str2num(a{2}); rand('state', seed);
n = 120; if strcmp(a{3}, 'thorough'), n = 1500; end
for t = 1:n
  K = 1 + floor(rand * 4); om = 2 * (rand(3, K) - .5) * [1e-3 1 1.8](1 + floor(rand * 3)); d = rand < .5;
  if rand < .2, om(:, 1) = 0; end
  arg = om; if rand < .3, arg = om(:); end
  try
    dm = []; if d, [m, dm] = vl_rodr(arg); else m = vl_rodr(arg); end
    ev = struct('e', 'MexExp', 'n', K, 'w', {num(om)}, 'm', {num(m)}, 'size', size(m), 'd', d, 'dm', {num(dm)});
  catch err
    ev = struct('e', 'Crash', 'in', err.message);
  end
  fprintf(fid, '%s\n', jsonencode(ev));
  R = zeros(9, K); for k = 1:K, R(:, k) = expm(vl_hat(om(:, k)))(:); end
  arg = R; if K == 1 && rand < .5, arg = reshape(R, 3, 3); elseif rand < .3, arg = R(:); end
  try
    dw = []; if d, [w, dw] = vl_irodr(arg); else w = vl_irodr(arg); end
    ev = struct('e', 'MexLog', 'n', K, 'm', {num(R)}, 'w', {num(w)}, 'd', d, 'dw', {num(dw)});
  catch err
    ev = struct('e', 'Crash', 'in', err.message);
  end
  fprintf(fid, '%s\n', jsonencode(ev));
  H = vl_hat(om(:, 1)); ev = struct('e', 'Hat', 'w', {num(om(:, 1))}, 'm', {num(H)}, 'back', {num(vl_ihat(H))});
  fprintf(fid, '%s\n', jsonencode(ev));
end
for k = {zeros(2, 1), single([1; 2; 3]), [], zeros(4, 4)}
  fprintf(fid, '%s\n', jsonencode(struct('e', 'Refuse', 'refused', refused(@vl_rodr, k{1})))); 
end
for k = {zeros(3, 2), single(eye(3)), [], zeros(2, 2)}
  fprintf(fid, '%s\n', jsonencode(struct('e', 'Refuse', 'refused', refused(@vl_irodr, k{1}))));
end
fclose(fid);
