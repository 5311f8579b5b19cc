1;
function c = C(x), c = cell(1, size(x, 2)); for k = 1:size(x, 2), c{k} = num2cell(double(x(:, k)')); end, end
function c = N(x), c = num2cell(double(x(:)')); end
function v = R(n), v = floor(rand * n); end
function go(fid, ev), fprintf(fid, '%s\n', jsonencode(ev)); end
a = argv(); seed = str2num(a{2}); rand('state', seed); nf = 4; n = 60; if strcmp(a{3}, 'thorough'), n = 500; end
for f = 1:nf
  fid = fopen(sprintf('%s/ihash-%d.ndjson', a{1}, f), 'w');
  K = 5; h = zeros(1, K, 'uint32'); id = zeros(2, K, 'uint8'); next = zeros(1, K, 'uint32');
  [h, id, next] = vl_ihashsum(h, id, next, K, uint8([1 1; 1 2; 2 1; 1 1]')); go(fid, struct('e', 'Doc', 'h', {N(h)}, 'id', {C(id)}, 'next', {N(next)}));
  for t = 1:n
    D = 1 + R(3); K = 1 + R(9); if rand < .1, K = 16 + R(20); end, E = 0; if rand < .3, E = R(4); end
    h = zeros(1, K + E, 'uint32'); id = zeros(D, K + E, 'uint8'); next = zeros(1, K + E, 'uint32'); vl_ihashsum(h, id, next, K, uint8(ones(D, 1)));
    top = 1 + R({4, 30, 255}{1 + R(3)}); go(fid, struct('e', 'New', 'k', K));
    pool = uint8(1 + floor(rand(D, 1 + R(25)) * top)); pool(rand(size(pool)) < .2) = 0; pool = pool(:, any(pool, 1)); if isempty(pool), pool = uint8(ones(D, 1)); end
    for s = 1:1 + R(4)
      X = pool(:, 1 + floor(rand(1, R(30)) * size(pool, 2))); if rand < .06 && size(X, 2), X(:, 1 + R(size(X, 2))) = 0; end
      if rand < .2, X = pool(:, ones(1, R(9)) * (1 + R(size(pool, 2)))); end
      ev = struct('e', 'Sum', 'k', K, 'x', {C(X)}, 'refused', false);
      try [h, id, next] = vl_ihashsum(h, id, next, K, X); ev.t = struct('h', {N(h)}, 'id', {C(id)}, 'next', {N(next)}); catch, ev.refused = true; end
      go(fid, ev);
      Q = [pool, uint8(floor(rand(D, 8) * (top + 1)))]; ev = struct('e', 'Find', 'x', {C(Q)}, 'id', {C(id)}, 'sel', {N(vl_ihashfind(id, next, K, Q))}); go(fid, ev);
    end
  end
  fclose(fid);
end
