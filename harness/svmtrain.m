1;
function s = num(v)
  s = {}; v = double(v(:)); for k = 1:numel(v), s{k} = sprintf('%.17g', v(k)); end
end
function s = one(v)
  s = sprintf('%.17g', double(v));
end
function s = cols(x)
  s = {}; for k = 1:size(x, 2), s{k} = num(x(:, k)); end
end
function note(info)
  global infos; infos{end + 1} = info;
end
function s = brief(i)
  s = struct('solver', i.solver, 'B', one(i.biasMultiplier), 'lambda', one(i.lambda), 'bias', one(i.bias), 'obj', one(i.objective), 'reg', one(i.regularizer), 'loss', one(i.loss), 't', -1, 'epoch', -1, 'dobj', '0', 'dloss', '0', 'gap', '0', 'timed', i.elapsedTime >= 0);
  if isfield(i, 'iteration'), s.t = double(i.iteration); s.epoch = double(i.epoch); end
  if isfield(i, 'dualityGap'), s.dobj = one(i.dualObjective); s.dloss = one(i.dualLoss); s.gap = one(i.dualityGap); end
end
function r = refused(varargin)
  r = false; try vl_svmtrain(varargin{:}); catch, r = true; end
end
a = argv(); fid = fopen([a{1} '/svmtrain.ndjson'], 'w'); seed = str2num(a{2}); rand('state', seed); randn('state', seed);
global infos
losses = {'hinge', 'hinge2', 'l1', 'l2', 'logistic'}; solvers = {'none', 'sdca', 'sgd'}; kernels = {'kinters', 'kchi2', 'kjs'};
n = 240; if strcmp(a{3}, 'thorough'), n = 2400; end
for t = 1:n
  infos = {};
  N = 1 + floor(rand * 6); d = 1 + floor(rand * 3); x = round(4 * rand(d, N)) / 2 - 1; y = sign(randn(1, N)); y(y == 0) = 1;
  loss = losses{1 + mod(t, 5)}; solver = solvers{1 + mod(floor(t / 5), 3)}; lambda = [.05 .1 .5 2](1 + floor(rand * 4));
  sg = rand < .3; data = x; if sg, data = single(x); end
  hom = rand < .3; ds = data; phi = x; how = 'matrix';
  if hom
    x = abs(x); data = x; if sg, data = single(x); end
    h.order = floor(rand * 3); h.kernel = kernels{1 + floor(rand * 3)}; h.gamma = [1 .5](1 + floor(rand * 2)); h.window = {'uniform', 'rectangular'}{1 + floor(rand * 2)};
    args = {'kernel', h.kernel, 'gamma', h.gamma, 'window', h.window}; if rand < .5, h.period = 3; args(end + (1:2)) = {'period', 3}; elseif isfield(h, 'period'), h = rmfield(h, 'period'); end
    phi = vl_homkermap(x, h.order, args{:}); ds = vl_svmdataset(data, 'homkermap', h); how = 'hom';
  elseif rand < .3
    ds = vl_svmdataset(data); how = 'dataset';
  end
  D = size(phi, 1); opts = {}; w = zeros(D, 1); b = 0; p = ones(1, N); B = 1; rho = .01; t0 = 0; max_ = 1 + floor(rand * 12); freq = N;
  flip_ = @(s) s; if rand < .5, flip_ = @(s) upper(s); end
  opts(end + (1:4)) = {flip_('solver'), flip_(solver), 'Loss', flip_(loss)};
  if rand < .4, p = floor(rand(1, N) * 3); opts(end + (1:2)) = {'weights', p}; end
  if rand < .5, B = [.5 2 3](1 + floor(rand * 3)); opts(end + (1:2)) = {'biasmultiplier', B}; end
  if rand < .4, freq = 1 + floor(rand * 5); opts(end + (1:2)) = {'DiagnosticFrequency', freq}; end
  lim = 1 + floor(rand * 12); if strcmp(solver, 'sgd') && rand < .6, lim = 1; end
  opts(end + (1:2)) = {'MaxNumIterations', lim}; eps_ = .01; if rand < .5, eps_ = [0 .1](1 + floor(rand * 2)); opts(end + (1:2)) = {'Epsilon', eps_}; end
  if ~strcmp(solver, 'sdca')
    if rand < .8, w = round(8 * rand(D, 1)) / 4 - 1; opts(end + (1:2)) = {'model', w}; end
    if rand < .8, b = round(8 * rand) / 4 - 1; opts(end + (1:2)) = {'bias', b}; end
  end
  if strcmp(solver, 'sgd')
    if rand < .6, rho = .25; opts(end + (1:2)) = {'BiasLearningRate', rho}; end
    if rand < .6, t0 = floor(rand * 50); opts(end + (1:2)) = {'StartingIteration', t0}; end
  end
  opts(end + (1:2)) = {'DiagnosticFunction', @note};
  q = randperm(numel(opts) / 2); opts = opts([2 * q - 1; 2 * q](:)');
  try
    [W, bb, info, sc] = vl_svmtrain(ds, y, lambda, opts{:});
    ev = struct('e', 'Train', 'how', how, 'x', {cols(phi)}, 'y', {num(y)}, 'p', {num(p)}, 'lambda', one(lambda), 'B', one(B), 'loss', loss, 'rho', one(rho), 't0', t0, ...
      'solver', solver, 'max', lim, 'freq', freq, 'eps', one(eps_), 'w0', {num(w)}, 'b0', one(b), 'w', {num(W)}, 'b', one(bb), 'scores', {num(sc)}, 'info', brief(info), 'shape', isequal(size(W), [D 1]) && isequal(size(sc), [1 N]) && isa(W, 'double'));
    r = {}; for k = 1:numel(infos), r{k} = brief(infos{k}); end; ev.reports = r;
  catch err
    ev = struct('e', 'Crash', 'in', err.message, 'how', how);
  end
  fprintf(fid, '%s\n', jsonencode(ev));
end
x = [1 -1 2; 0 1 1]; y = [1 -1 1];
bad = {{x, y}, {x, y(1:2), .1}, {x, single(y), .1}, {int32(x), y, .1}, {zeros(2, 0), zeros(1, 0), .1}, {x, y, -1}, {x, y, .1, 'solver', 'foo'}, {x, y, .1, 'loss', 'foo'}, {x, y, .1, 'solver', 3}, ...
  {x, y, .1, 'model', [1; 2]}, {x, y, .1, 'bias', 1}, {x, y, .1, 'model', [1; 2; 3], 'solver', 'sgd'}, {x, y, .1, 'weights', [1 1]}, {x, y, .1, 'epsilon', -1}, {x, y, .1, 'MaxNumIterations', -1}, {x, y, .1, 'nothing', 1}, ...
  {x, y, .1, 'epsilon'}, {x, y, .1, 'DiagnosticFunction', 3}, {struct('foo', 1), y, .1}, {struct('data', int32(x)), y, .1}, {struct('data', x, 'homkermap', 3), y, .1}, {struct('data', x, 'homkermap', struct('order', -1)), y, .1}, ...
  {struct('data', x, 'homkermap', struct('kernel', 'foo')), y, .1}, {struct('data', x, 'homkermap', struct('gamma', 0)), y, .1}, {struct('data', x, 'homkermap', struct('window', 'foo')), y, .1}};
good = {{x, y, .1}, {x, y', .1}, {x, y, .1, 'solver', 'sgd', 'model', [1; 2], 'bias', 1}, {struct('data', x), y, .1}, {struct('data', abs(x), 'homkermap', struct()), y, .1}};
r = {}; for k = 1:numel(bad), r{k} = refused(bad{k}{:}); end
g = {}; for k = 1:numel(good), g{k} = ~refused(good{k}{:}); end
fprintf(fid, '%s\n', jsonencode(struct('e', 'Refuse', 'bad', {r}, 'good', {g})));
fclose(fid);
